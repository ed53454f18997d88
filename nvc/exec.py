"""nvc: symbolic executor / verification-condition generator over exported LLVM IR.

 * every call either uses a contract (library contract in libspec.py, or a verified contract of a repository
   function) or is inlined;
 * loops are unrolled only while their exit decisions are concrete; otherwise they are cut by inductive invariants
   (closed forms for linear induction variables + Houdini over templates), so the result holds for all iterations;
 * heap = blocks; obligations = memory safety of every access (optional), loop invariant establishment and
   preservation, callee preconditions, postconditions.
"""
import heapq
import itertools
import os
import re
import time
import z3
from val import *
from ir import iw, tsize


NCPU = os.cpu_count() or 1


def load_factor():
    """solver limits are wall-clock: stretched when more threads want to run than there are processors"""
    try:
        with open('/proc/loadavg') as f:
            return min(4.0, max(1.0, 1.15 * int(f.read().split()[3].split('/')[0]) / NCPU))
    except (OSError, ValueError, IndexError):
        return 1.0


class Budget(Exception):
    pass


class LoopNeedsInvariant(Exception):
    pass


class QA:
    """assumption: for all i with lo <= i < hi (unsigned 64): pred(i)   [guarded by g]"""
    __slots__ = ('lo', 'hi', 'pred', 'g', 'name', 'trig')

    def __init__(self, lo, hi, pred, g=True, name=''):
        self.lo, self.hi, self.pred, self.g, self.name = lo, hi, pred, g, name
        self.trig = None

    def at(self, t):
        c = And(self.g, ule(self.lo, t), ult(t, self.hi))
        c = simp(c)
        if c is False:
            return True
        return Implies(c, self.pred(t))

    def guarded(self, g):
        q = QA(self.lo, self.hi, self.pred, And(g, self.g), self.name)
        q.trig = self.trig
        return q


def fkey(e):
    """key of an application whose arguments are indices: array select or uninterpreted function"""
    k = e.decl().kind()
    if k == z3.Z3_OP_SELECT:
        b = e.arg(0)
        if b.num_args() == 0:
            return b.decl().name()
        if b.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return 'A:' + b.decl().name()
        return None
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
        return e.decl().name()
    return None


def index_args(e):
    if e.decl().kind() == z3.Z3_OP_SELECT:
        return [(1, e.arg(1))]
    return [(i, a) for i, a in enumerate(e.children()) if isinstance(a, z3.BitVecRef) and a.size() == 64]


def mentions(t, x):
    st = [t]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        st.extend(e.children())
    return False


class Block:
    __slots__ = ('size', 'cells', 'arr', 'es', 'fill', 'kind', 'freed', 'ghost', 'name', 'ro')

    def __init__(self, size, kind='heap', fill=None, name='', es=None):
        self.size = size
        self.cells = {}
        self.arr = None
        self.es = es
        self.fill = fill
        self.kind = kind
        self.freed = False
        self.ghost = None
        self.name = name
        self.ro = False

    def copy(self):
        b = Block.__new__(Block)
        b.size, b.cells, b.arr, b.es, b.fill = self.size, dict(self.cells), self.arr, self.es, self.fill
        b.kind, b.freed, b.name, b.ro = self.kind, self.freed, self.name, self.ro
        b.ghost = self.ghost
        return b


class Frame:
    __slots__ = ('fn', 'env', 'bi', 'ii', 'prev', 'iters', 'allocas', 'uid')

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.bi = 0
        self.ii = 0
        self.prev = None
        self.iters = {}
        self.allocas = []
        self.uid = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.env, f.bi, f.ii, f.prev = self.fn, dict(self.env), self.bi, self.ii, self.prev
        f.iters, f.allocas, f.uid = dict(self.iters), list(self.allocas), self.uid
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'exc', 'caught', 'ghost', 'out')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.exc = None
        self.caught = []
        self.ghost = {}
        self.out = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.ghost = dict(self.ghost)
        s.out = self.out
        return s

    @property
    def top(self):
        return self.frames[-1]

    def assume(self, c):
        if isinstance(c, QA):
            self.pc.append(c)
            return
        c = simp(c) if is_sym(c) else c
        if c is True:
            return
        self.pc.append(bl(c))

    def wr(self, b):
        """block for writing"""
        nb = self.mem[b].copy()
        self.mem[b] = nb
        return nb


EXT_TI = {
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt9exception': [],
}


class Obl:
    __slots__ = ('kind', 'name', 'loc', 'ok', 'why', 'model', 'secs', 'backend')

    def __init__(self, kind, name, loc, ok, why='', model=None, secs=0.0, backend='z3'):
        self.kind, self.name, self.loc, self.ok, self.why, self.model = kind, name, loc, ok, why, model
        self.secs, self.backend = secs, backend


class Exec:
    def __init__(self, prog, lib, opts=None):
        self.prog = prog
        self.lib = lib
        self.o = dict(max_unroll=300, safety=True, steps=2000000, qtimeout=20000, ftimeout=1500, unroll_sym={},
                      bounded=None, loop_hints=[], deadline=None, merge=True, contracts={}, inst_rounds=3, inst_budget=3000,
                      houdini_rounds=12, use={}, contract=None)
        if opts:
            self.o.update(opts)
        self.nfresh = 0
        self.nblock = 0
        self.obls = []
        self.recording = True
        self.steps = 0
        self.loop_mode = {}
        self.tids = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.used_lib = set()
        self.used_specs = set()
        self.inlined = set()
        self.exit_conds = None
        self.truncated = False
        self.extra_terms = []
        self.fail_fast = False
        self.assumed_notes = set()
        self.frame_uid = itertools.count(1)
        self.inputs = {}
        self.known = set()
        self.known_used = set()
        self.reached = {}
        self.findmemo = {}
        self.findkeep = []
        self.eqdefs = {}
        self.hists = []
        self.nodes = {}
        self.nhist = 0
        self.eqbyname = {}

    # ------------------------------------------------------------------ fresh things
    def fresh(self, name, w):
        self.nfresh += 1
        return z3.BitVec('%s!%d' % (name, self.nfresh), w)

    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (name, self.nfresh))

    def fresh_arr(self, name, w):
        self.nfresh += 1
        return ABase('%s!%d' % (name, self.nfresh), w)

    def new_block(self, st, size, kind='heap', fill=None, name='', es=None):
        self.nblock += 1
        st.mem[self.nblock] = Block(size, kind, fill, name, es)
        return self.nblock

    # ------------------------------------------------------------------ solving
    def triggers(self, q):
        """where pred(i) mentions i as an index: [(function key, argument position, coefficient, offset term)]"""
        if q.trig is not None:
            return q.trig
        x = z3.BitVec('probe!', 64)
        r = q.pred(x)
        out = []
        if is_sym(r):
            seen = set()
            stack = [r]
            while stack:
                t = stack.pop()
                if t.get_id() in seen or not z3.is_app(t):
                    continue
                seen.add(t.get_id())
                fk = fkey(t)
                if fk is not None:
                    for pos, arg in index_args(t):
                        l = linear(widen(arg), 64)
                        if l is not None and x.get_id() in l[1]:
                            c, acc = l
                            co = sgn(acc[x.get_id()][1], 64)
                            rest = {i: v for i, v in acc.items() if i != x.get_id()}
                            if any(mentions(v[0], x) for v in rest.values()):
                                continue
                            out.append((fk, pos, co, from_linear(c, rest, 64)))
                stack.extend(t.children())
        ded = []
        for o in out:
            if not any(o[:3] == p[:3] and same(o[3], p[3]) for p in ded):
                ded.append(o)
        q.trig = ded
        return ded

    def cases_active(self, st):
        return any(isinstance(k, tuple) and k[0] == 'case' for k in st.ghost)

    def node(self, e):
        """cached (id, term, index applications, interesting children) of a term; keeps the term alive"""
        nd = self.nodes
        i = e.get_id()
        n = nd.get(i)
        if n is not None:
            return n
        stack = [(e, None)]
        while stack:
            x, ch = stack.pop()
            xi = x.get_id()
            if xi in nd:
                continue
            if ch is None:
                ch = x.children() if z3.is_app(x) else []
                todo = [c for c in ch if c.get_id() not in nd]
                if todo:
                    stack.append((x, ch))
                    stack.extend((c, None) for c in todo)
                    continue
            own = None
            fk = fkey(x) if ch else None
            if fk is not None:
                own = (fk, [(pos, a, a.get_id()) for pos, a in index_args(x)])
            kids = []
            for c in ch:
                m = nd[c.get_id()]
                if m[2] is not None or m[3]:
                    kids.append(m)
            nd[xi] = (xi, x, own, kids)
        return nd[i]

    def flat(self, pc, extra=(), terms=(), eqexp=True):
        """quantifier-free assertions: the quantified assumptions are instantiated on matching index terms"""
        qf = [bl(c) for c in pc if not isinstance(c, QA)]
        qf += [bl(c) for c in extra if not isinstance(c, QA) and c is not True]
        qas = [c for c in pc if isinstance(c, QA)] + [c for c in extra if isinstance(c, QA)]
        self.last_q = bool(qas or self.eqdefs)
        if not self.last_q:
            return qf
        seen = set()
        occ = {}            # function key -> list of applications (in order of discovery)
        occn = set()
        eqs = []
        keep = self._keep = []

        node = self.node

        def collect(es):
            stack = [node(e) for e in es if not isinstance(e, (bool, int))]
            while stack:
                n = stack.pop()
                i = n[0]
                if i in seen:
                    continue
                seen.add(i)
                own = n[2]
                if own is not None:
                    fk, args = own
                    for pos, arg, aid in args:
                        kk = (fk, pos, aid)
                        if kk not in occn:
                            occn.add(kk)
                            occ.setdefault((fk, pos), []).append(arg)
                    if fk.startswith('EQ!'):
                        eqs.append(n[1])
                if n[3]:
                    stack.extend(n[3])
        explicit = [bv(t, 64) for t in list(terms) + self.extra_terms if is_sym(t)]
        collect(qf)
        done = set()
        budget = self.o['inst_budget']
        ppos = {}
        eqpos = 0
        eqsel = {}
        for rnd in range(self.o['inst_rounds']):
            new = []

            def inst(qi, q, t):
                nonlocal budget
                t = simp(t)
                k = (qi, t if isinstance(t, int) else -t.get_id() - 1)
                if k in done:
                    return None
                done.add(k)
                keep.append(t)
                budget -= 1
                if budget < 0:
                    return None
                r = q.at(t)
                if r is True:
                    return None
                new.append(bl(r))
                return r
            for qi, q in enumerate(qas):
                if rnd == 0:
                    for t in explicit:
                        inst(qi, q, t)
                    inst(qi, q, q.lo)
                    inst(qi, q, sub(q.hi, 1))
                for ti, (fk, pos, co, off) in enumerate(self.triggers(q)):
                    lst = occ.get((fk, pos), ())
                    p0 = ppos.get((qi, ti), 0)
                    p1 = len(lst)
                    ppos[(qi, ti)] = p1
                    for t in lst[p0:p1]:
                        d = sub(t, off)
                        if co == 1:
                            inst(qi, q, d)
                        elif co == -1:
                            inst(qi, q, sub(0, d))
                        else:
                            x = self.div_off(None, d, co) if co > 0 else None
                            if x is not None:
                                inst(qi, q, x)
                            elif co > 0 and is_sym(d):
                                inst(qi, q, z3.UDiv(d, z3.BitVecVal(co, 64)))
            # equality predicates over byte ranges
            for ei, e in enumerate(list(eqs) if eqexp else ()):
                f, W, A, B = self.eqbyname[e.decl().name()]
                a, b, n = e.children()
                if ei >= eqpos:
                    w = W(a, b, n)
                    new.append(bl(Or(e, And(ult(w, n), ne(A.read(add(a, w)), B.read(add(b, w)), A.w)))))
                for X, o in ((A, a), (B, b)):
                    if not isinstance(X, ABase):
                        continue
                    lst = occ.get((X.name, 1), ())
                    kk = (ei, X is A, X is B, o.get_id())
                    p0 = eqsel.get(kk, 0)
                    eqsel[kk] = len(lst)
                    for t in lst[p0:]:
                        j = simp(sub(t, o))
                        dk = ('e', e.get_id(), j if isinstance(j, int) else -j.get_id() - 1)
                        if dk in done:
                            continue
                        done.add(dk)
                        keep.append(j)
                        budget -= 1
                        if budget < 0:
                            continue
                        new.append(bl(Implies(And(e, ult(j, n)), eq(A.read(add(a, j)), B.read(add(b, j)), A.w))))
            eqpos = len(eqs)
            if not new:
                break
            qf += new
            keep += new
            collect(new)
        return qf

    def sat(self, pc, extra=(), timeout=None, want_model=False, terms=(), one=False):
        """'sat' / 'unsat' / 'unknown' (, model)"""
        t0 = time.time()
        self.nqueries += 1
        if self.o['deadline'] and t0 > self.o['deadline']:
            raise Budget('deadline')
        qf = self.flat(pc, extra, terms)
        tmo = int((timeout or self.o['ftimeout']) * load_factor())
        r = 'unknown'
        for mk, tm in ((z3.SimpleSolver, tmo), (z3.Solver, tmo)) if self.last_q else ((z3.Solver, tmo),):
            s = mk()
            s.set('timeout', tm)
            s.add(*qf)
            try:
                r = str(s.check())
            except z3.Z3Exception:
                r = 'unknown'
            if r != 'unknown' or not self.recording or one:
                break
        dt = time.time() - t0
        self.solver_time += dt
        if self.o.get('trace') and dt > self.o['trace']:
            if os.environ.get('DUMPQ'):
                open('%s/%d.smt2' % (os.environ['DUMPQ'], int(time.time() * 1000) % 10**9), 'w').write('(set-logic ALL)\n' + s.to_smt2())
            import traceback
            print('SLOW %.1f %s qf=%d' % (dt, r, len(qf)), [x.name for x in traceback.extract_stack()[-9:-1]])
        if want_model:
            return r, (s.model() if r == 'sat' else None), s
        return r

    def feasible(self, pc, c):
        c = simp(c) if is_sym(c) else c
        if c is False:
            return False
        if c is True:
            return True
        for x in pc[-60:]:
            if not isinstance(x, QA):
                if x.eq(bl(c)):
                    return True
                if z3.is_not(x) and x.arg(0).eq(bl(c)):
                    return False
                if z3.is_not(c) and c.arg(0).eq(x):
                    return False
        if not self.recording:
            pc = [x for x in pc if not isinstance(x, QA)]
        return self.sat(pc, [c], one=True) != 'unsat'

    def valid(self, pc, c, timeout=None):
        """(ok, why, model)"""
        if isinstance(c, QA):
            k = z3.BitVec('sk!%d' % self._sk(), 64)
            hyp = [And(c.g, ule(c.lo, k), ult(k, c.hi))]
            last = simp(sub(c.hi, 1))
            if not is_sym(last) or not is_sym(c.hi):
                return self._valid(pc, c.pred(k), hyp, timeout, [k])
            # an inductive step adds one element: it separately, then all the others
            p = c.pred(k)
            p = simp(p) if is_sym(p) else p
            if p is True:
                return True, 'trivial', None
            r, m, s = self.sat(pc, hyp + [Not(p)], 1000, True, [k])
            if r == 'unsat':
                return True, 'unsat', None
            if r == 'sat':
                return self._valid(pc, p, hyp, timeout, [k])
            a = self._valid(pc, c.pred(last), [And(c.g, ult(c.lo, c.hi))], timeout, [last])
            if not a[0]:
                return a
            return self._valid(pc, p, hyp + [k != last], timeout, [k])
        return self._valid(pc, c, [], timeout, [])

    def _sk(self):
        self.nfresh += 1
        return self.nfresh

    def _valid(self, pc, c, hyp, timeout, terms):
        c = simp(c) if is_sym(c) else c
        if c is True:
            return True, 'trivial', None
        tmo = timeout or self.o['qtimeout']
        first = min(tmo, 1200)
        r, m, s = self.sat(pc, hyp + [Not(c)], first, True, terms)
        if r == 'unknown' and tmo > first:
            r2 = None
            if self.eqdefs and self.last_q:
                # with equality of byte ranges as an opaque relation
                s2 = z3.SimpleSolver()
                s2.add(*self.flat(pc, hyp + [Not(c)], terms, False))
                self.nqueries += 1
                r2 = self.race(s2, 10000 * self.o.get('patience', 1), (1, 0))
            if r2 is None or r2[0] != 'unsat':
                s2 = self.generalised(s)
                if s2 is not None and s2.check() == z3.unsat:
                    return True, 'unsat', None
                r2 = self.race(s, tmo * (self.o.get('patience', 1) if self.recording else 1), (0, 1, 2))
            r = r2[0]
            if r == 'unsat':
                return True, r2[1], None
            if r == 'sat' and self.recording:
                r, m, s = self.sat(pc, hyp + [Not(c)], tmo, True, terms)
                r = 'sat'
        if r == 'unsat':
            return True, 'unsat', None
        if r == 'sat' and self.recording:
            for lim in (3, 12, 100):
                lens = [v[1] for kd, v in self.inputs.values() if isinstance(v, tuple)]
                if not lens:
                    break
                r3, m3, s3 = self.sat(pc, hyp + [Not(c)] + [ule(x, lim) for x in lens], 4000, True, terms)
                if r3 == 'sat':
                    m = m3
                    break
        if r == 'unknown':
            return False, 'unknown (solvers gave up)', None
        return False, 'counterexample', m

    def generalised(self, s):
        """the query with every product and quotient of two variables replaced by a variable of its own (None: there is none)"""
        kinds = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)
        seen, subs, n = set(), [], 0
        fs = [z3.simplify(a, som=True) for a in s.assertions()]
        todo = list(fs)
        while todo:
            t = todo.pop()
            if t.get_id() in seen or not z3.is_app(t):
                if z3.is_quantifier(t):
                    return None
                continue
            seen.add(t.get_id())
            k = t.decl().kind()
            if (k in kinds and not z3.is_bv_value(t.arg(1))) or (k == z3.Z3_OP_BMUL and not any(z3.is_bv_value(c) for c in t.children())):
                n += 1
                subs.append((t, z3.BitVec('gen!%d' % n, t.size())))
                continue
            todo += t.children()
        if not subs:
            return None
        r = z3.SimpleSolver()
        r.set('timeout', int(8000 * load_factor()))
        for a in fs:
            r.add(z3.substitute(a, *subs))
        return r

    RACE = [['z3-new'], ['cvc5', '--solve-bv-as-int=sum'], ['cvc5']]

    def race(self, s, tmo, who):
        """several solvers on one query: (first definite answer, solver)"""
        import subprocess, tempfile
        txt = '(set-logic ALL)\n' + s.to_smt2()
        if os.environ.get('DUMPQ'):
            open('%s/r%d.smt2' % (os.environ['DUMPQ'], int(time.time() * 1000) % 10**9), 'w').write(txt)
        fp = '(_ FloatingPoint' in txt or 'fp.' in txt
        tmo = int(tmo * load_factor())
        t0 = time.time()
        ps = []
        fd, f = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as h:
                h.write(txt)
            for k in who:
                if k == 1 and fp:
                    continue
                cmd = self.RACE[k]
                lim = ['-T:%d' % max(1, tmo // 1000)] if k == 0 else ['--tlimit=%d' % tmo]
                ps.append((' '.join(cmd), subprocess.Popen(cmd + lim + [f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            left = list(ps)
            while left and time.time() - t0 < tmo / 1000 + 5:
                for x in list(left):
                    if x[1].poll() is not None:
                        left.remove(x)
                        o = x[1].stdout.read().strip().split('\n')[0]
                        if o in ('sat', 'unsat'):
                            return o, x[0].split()[0]
                time.sleep(0.02)
            return 'unknown', ''
        finally:
            for _, q in ps:
                if q.poll() is None:
                    q.kill()
                q.wait()
                q.stdout.close()
            os.unlink(f)
            dt = time.time() - t0
            self.solver_time += dt
            if self.o.get('trace') and dt > self.o['trace']:
                print('SLOW race %.1f' % dt, who)

    def loc(self, st):
        if not st.frames:
            return ''
        f = st.top
        try:
            ins = f.fn.blocks[f.bi][min(f.ii, len(f.fn.blocks[f.bi]) - 1)]
            return '%s line %s' % (f.fn.dn[:120], ins.get('ln', '?'))
        except Exception:
            return f.fn.dn[:120]

    def oblige(self, st, kind, name, c, assume=True, timeout=None):
        """emit an obligation; afterwards it may be assumed"""
        if not isinstance(c, QA):
            c = simp(c) if is_sym(c) else c
            if c is True:
                if self.recording and kind not in ('mem',):
                    self.obls.append(Obl(kind, name, self.loc(st), True, 'trivial'))
                return True
        if not self.recording:
            if assume:
                st.assume(c)
            return True
        t0 = time.time()
        ok, why, m = self.valid(st.pc, c, timeout)
        self.obls.append(Obl(kind, name, self.loc(st), ok, why, (m, st) if not ok else None, time.time() - t0,
                             'cvc5' if why == 'cvc5' else 'z3'))
        if assume:
            st.assume(c)
        return ok

    # ------------------------------------------------------------------ memory
    def block(self, st, b):
        blk = st.mem.get(b)
        if blk is None and isinstance(b, tuple) and b[0] == 'g':
            self.materialize(st, b)
            blk = st.mem.get(b)
        if blk is None:
            raise Unsupported('unknown block %r' % (b,))
        return blk

    def gptr(self, name, mod):
        f = self.prog.find_func(name, mod)
        if f is not None:
            return Ptr(('f', f.mod.path, f.name), 0)
        g, m = self.prog.find_glob(name, mod)
        if g is None:
            return Ptr(('f', mod.path if mod else '', name), 0)
        return Ptr(('g', m.path if g['local'] else '', g['n'], m.path), 0) if g['local'] else Ptr(('g', '', g['n'], m.path), 0)

    def materialize(self, st, b):
        mod = [m for m in self.prog.mods if m.path == b[3]][0]
        g = mod.glob(b[2])
        blk = Block(g['size'], 'global', None, g['n'])
        blk.ro = bool(g['const'])
        st.mem[b] = blk
        if 'init' in g:
            blk.fill = 0
            self.init_into(st, blk, 0, g['t'], g['init'], mod)
        if g['n'] == '__dso_handle':
            blk.fill = 0

    def init_into(self, st, blk, off, t, v, mod):
        k = v[0]
        if k == 'zero' or k == 'null' or k == 'undef':
            return
        if k == 'cds':
            es = t[4]
            raw = bytes.fromhex(v[2])
            for i in range(0, len(raw), es):
                x = int.from_bytes(raw[i:i + es], 'little')
                blk.cells[off + i] = (es, x)
            return
        if k == 'agg':
            if t[0] == 's':
                for (o, et), x in zip(t[2], v[2]):
                    self.init_into(st, blk, off + o, et, x, mod)
            else:
                for i, x in enumerate(v[2]):
                    self.init_into(st, blk, off + i * t[4], t[3], x, mod)
            return
        blk.cells[off] = (tsize(t), self.const(v, mod))

    def const(self, v, mod):
        k = v[0]
        if k == 'c':
            x = int(v[2])
            return bool(x & 1) if v[1] == 1 else x & mask(v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gptr(v[1], mod)
        if k == 'gep':
            p = self.const(v[1], mod)
            return Ptr(p.b, add(p.o, v[2]))
        if k == 'fp':
            return Flt(32 if v[1] == 'float' else 64, int(v[2]))
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero_of(v[1])
        if k == 'ce':
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.const(v[3], mod)
            if v[1] == 'sub':
                a, b = self.const(v[3], mod), self.const(v[4], mod)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                    return sub(a.o, b.o)
        raise Unsupported('constant %r' % (v,))

    def zero_of(self, t):
        w = iw(t)
        if w == 1:
            return False
        if w:
            return 0
        if t == 'ptr':
            return NULL
        if t == 'float':
            return Flt(32, 0)
        if t == 'double':
            return Flt(64, 0)
        if t[0] == 's':
            return tuple(self.zero_of(x[1]) for x in t[2])
        if t[0] == 'a':
            return tuple(self.zero_of(t[3]) for _ in range(t[2]))
        raise Unsupported('zero of %r' % (t,))

    def check_access(self, st, p, n, what):
        if not isinstance(p, Ptr):
            if isinstance(p, int) and p == 0:
                p = NULL
            else:
                raise Unsupported('access through non-pointer %r' % (p,))
        if p.b == 0:
            self.oblige(st, 'mem', 'null pointer ' + what, False)
            return None
        blk = self.block(st, p.b)
        if blk.freed:
            self.oblige(st, 'mem', 'use after free (%s)' % what, False)
        if self.o['safety'] and blk.size is not None:
            if isinstance(p.o, int) and isinstance(blk.size, int):
                o = sgn(p.o, 64)
                if o < 0 or o + n > blk.size:
                    self.oblige(st, 'mem', '%s out of bounds (%s: offset %d size %d of %s)' % (what, blk.name, o, n, blk.size), False)
                    return None
            else:
                c = And(ule(p.o, sub(blk.size, n)), ule(n, blk.size))
                self.oblige(st, 'mem', '%s in bounds of %s' % (what, blk.name), c)
        return blk

    def load(self, st, p, t):
        if isinstance(t, list):
            if t[0] == 's':
                return tuple(self.load(st, Ptr(p.b, add(p.o, o)), et) for o, et in t[2])
            if t[0] == 'a':
                return tuple(self.load(st, Ptr(p.b, add(p.o, i * t[4])), t[3]) for i in range(t[2]))
            raise Unsupported('load %r' % (t,))
        n = tsize(t)
        blk = self.check_access(st, p, n, 'read')
        if blk is None:
            return self.havoc_type(t, 'oob')
        v = self.read_raw(st, p.b, blk, p.o, n, t == 'ptr')
        return self.conv(v, t)

    def conv(self, v, t):
        """memory value -> typed value"""
        w = iw(t)
        if v is UNDEF:
            return self.havoc_type(t, 'uninit')
        if w == 1:
            if isinstance(v, (bool, z3.BoolRef)):
                return v
            return trunc(v, 8, 1)
        if w:
            if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                return zext(v, 1, w)
            if isinstance(v, Flt):
                return v.bits
            if w % 8 and not isinstance(v, Ptr):
                return trunc(v, (w + 7) // 8 * 8, w)
            return v
        if t == 'ptr':
            if isinstance(v, int):
                if v == 0:
                    return NULL
                raise Unsupported('integer %x as pointer' % v)
            if not isinstance(v, Ptr):
                raise Unsupported('symbolic value as pointer')
            return v
        if t in ('float', 'double'):
            if isinstance(v, Flt):
                return v
            return Flt(32 if t == 'float' else 64, v)
        return v

    def havoc_type(self, t, name):
        w = iw(t)
        if w == 1:
            return self.fresh_bool(name)
        if w:
            return self.fresh(name, w)
        if t == 'float':
            return Flt(32, self.fresh(name, 32))
        if t == 'double':
            return Flt(64, self.fresh(name, 64))
        return UNDEF

    def blk_es(self, blk, n):
        if blk.arr is not None:
            return blk.arr.w // 8
        if blk.es:
            return blk.es
        return n

    def to_arr(self, st, bid, n):
        """make the block array-backed (symbolic index access), element size es"""
        blk = st.mem[bid]
        es = self.blk_es(blk, n)
        if blk.arr is not None and not blk.cells:
            return blk
        nb = blk.copy()
        base = nb.arr
        if base is None:
            if nb.fill is None:
                base = self.fresh_arr('mem_' + (nb.name or 'b'), es * 8)
            else:
                x = nb.fill
                base = AConst(int.from_bytes(bytes([x]) * es, 'little') if isinstance(x, int) else x, es * 8)
        over = {}
        keep = {}
        for off, (sz, v) in nb.cells.items():
            if isinstance(v, (Ptr, tuple)) or v is UNDEF and False:
                raise Unsupported('symbolic index into block %s holding pointers' % nb.name)
            if v is UNDEF:
                v = self.fresh('uninit', sz * 8)
            if isinstance(v, (bool, z3.BoolRef)):
                v = zext(v, 1, 8 * sz)
            if isinstance(v, Flt):
                v = v.bits
            if sz == es and off % es == 0:
                over[off // es] = v
            elif sz > es and off % es == 0 and sz % es == 0:
                for j in range(sz // es):
                    if isinstance(v, int):
                        over[off // es + j] = (v >> (8 * es * j)) & mask(8 * es)
                    else:
                        over[off // es + j] = simp(z3.Extract(8 * es * (j + 1) - 1, 8 * es * j, v))
            else:
                raise Unsupported('mixed cell sizes in array block %s (%d at %d, es %d)' % (nb.name, sz, off, es))
        if over:
            if isinstance(base, AOver):
                d = dict(base.d)
                d.update(over)
                base = AOver(base.base, d)
            else:
                base = AOver(base, over)
        nb.arr = base
        nb.es = es
        nb.cells = {}
        st.mem[bid] = nb
        return nb

    def div_off(self, st, off, es, depth=0):
        """off / es as an index term (off is a multiple of es)"""
        if es == 1:
            return off
        if isinstance(off, int):
            if off % es:
                return None
            return sgn(off, 64) // es & mask(64)
        l = linear(off, 64)
        if l is not None:
            c, acc = l
            c = sgn(c, 64)
            if c % es == 0 and all(sgn(k, 64) % es == 0 for t, k in acc.values()):
                return from_linear(c // es, {i: (t, sgn(k, 64) // es) for i, (t, k) in acc.items()}, 64)
            r = from_linear(0, {i: (t, sgn(k, 64) // es) for i, (t, k) in acc.items() if sgn(k, 64) % es == 0}, 64)
            for t, k in acc.values():
                k = sgn(k, 64)
                if k % es == 0:
                    continue
                if depth > 4 or not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_ITE:
                    return None
                d = [self.div_off(st, add(simp(mul(k & mask(64), x)), c & mask(64)), es, depth + 1) for x in t.children()[1:]]
                if d[0] is None or d[1] is None:
                    return None
                r = add(r, ite(t.arg(0), d[0], d[1], 64))
                c = 0
            return r if c == 0 else None
        return None

    def read_raw(self, st, bid, blk, off, n, want_ptr=False):
        if is_sym(off):
            off = simp(off)
        if isinstance(off, int):
            off &= mask(64)
            c = blk.cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            if not blk.cells and blk.arr is None and blk.fill is None:
                v = UNDEF if want_ptr else self.fresh('uninit_' + (blk.name or ''), 8 * n)
                if v is not UNDEF:
                    nb = st.wr(bid)
                    nb.cells[off] = (n, v)
                return v
            if c is None and blk.arr is None and not self.overlaps(blk, off, n):
                if blk.fill is None:
                    v = UNDEF if want_ptr else self.fresh('uninit_' + (blk.name or ''), 8 * n)
                    if v is not UNDEF:
                        nb = st.wr(bid)
                        nb.cells[off] = (n, v)
                    return v
                if isinstance(blk.fill, int):
                    return int.from_bytes(bytes([blk.fill]) * n, 'little')
            if blk.arr is not None and not self.overlaps(blk, off, n):
                return self.arr_read(blk, off, n)
            # assemble from bytes
            return self.assemble(st, bid, blk, off, n)
        blk = self.to_arr(st, bid, n)
        return self.arr_read(blk, off, n, st)

    def overlaps(self, blk, off, n):
        for o, (sz, v) in blk.cells.items():
            if o < off + n and off < o + sz:
                return True
        return False

    def arr_read(self, blk, off, n, st=None):
        es = blk.arr.w // 8
        if n == es:
            i = self.div_off(st, off, es)
            if i is None:
                raise Unsupported('unaligned symbolic offset')
            return blk.arr.read(i)
        if n > es and n % es == 0:
            parts = []
            for j in range(n // es):
                i = self.div_off(st, add(off, j * es), es)
                if i is None:
                    raise Unsupported('unaligned symbolic offset')
                parts.append(blk.arr.read(i))
            return self.concat(parts, es)
        # narrower than the element
        if isinstance(off, int):
            v = blk.arr.read(off // es)
            sh = (off % es) * 8
            if isinstance(v, int):
                return (v >> sh) & mask(8 * n)
            return simp(z3.Extract(sh + 8 * n - 1, sh, v))
        if isinstance(es, int) and es & (es - 1) == 0:
            k = es.bit_length() - 1
            i = simp(z3.LShR(off, k))
            v = bv(blk.arr.read(i), 8 * es)
            sh = simp((off & (es - 1)) << 3)
            if isinstance(sh, int):
                return simp(z3.Extract(8 * n - 1, 0, z3.LShR(v, sh)))
            shv = z3.Extract(8 * es - 1, 0, sh) if es < 8 else sh
            return z3.Extract(8 * n - 1, 0, z3.LShR(v, shv))
        raise Unsupported('narrow symbolic access')

    def concat(self, parts, es):
        """little-endian concatenation"""
        if all(isinstance(x, int) for x in parts):
            r = 0
            for j, x in enumerate(parts):
                r |= x << (8 * es * j)
            return r
        return z3.Concat([bv(x, 8 * es) for x in reversed(parts)])

    def byte_at(self, st, bid, blk, off):
        for o, (sz, v) in blk.cells.items():
            if o <= off < o + sz:
                if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                    v = zext(v, 1, 8 * sz)
                if isinstance(v, Flt):
                    v = v.bits
                if v is UNDEF:
                    return self.fresh('uninit', 8)
                if isinstance(v, Ptr):
                    raise Unsupported('byte of a pointer')
                j = off - o
                if isinstance(v, int):
                    return (v >> (8 * j)) & 255
                return simp(z3.Extract(8 * j + 7, 8 * j, v))
        if blk.arr is not None:
            return self.arr_read(blk, off, 1, st)
        if blk.fill is not None:
            return blk.fill
        nb = st.wr(bid)
        v = self.fresh('uninit_' + (blk.name or ''), 8)
        nb.cells[off] = (1, v)
        return v

    def assemble(self, st, bid, blk, off, n):
        # sub-range of one larger cell
        for o, (sz, v) in blk.cells.items():
            if o <= off and off + n <= o + sz:
                if isinstance(v, Ptr):
                    raise Unsupported('part of a pointer')
                if v is UNDEF:
                    return self.fresh('uninit', 8 * n)
                if isinstance(v, (bool, z3.BoolRef)):
                    v = zext(v, 1, 8 * sz)
                if isinstance(v, Flt):
                    v = v.bits
                if isinstance(v, int):
                    return (v >> (8 * (off - o))) & mask(8 * n)
                return simp(z3.Extract(8 * (off - o + n) - 1, 8 * (off - o), v))
        parts = [self.byte_at(st, bid, st.mem[bid], off + j) for j in range(n)]
        r = self.concat(parts, 1)
        return simp(r) if is_sym(r) else r

    def store(self, st, p, t, v):
        if isinstance(t, list):
            if t[0] == 's':
                for (o, et), x in zip(t[2], v if v is not UNDEF else [UNDEF] * len(t[2])):
                    self.store(st, Ptr(p.b, add(p.o, o)), et, x)
                return
            if t[0] == 'a':
                for i in range(t[2]):
                    self.store(st, Ptr(p.b, add(p.o, i * t[4])), t[3], v[i])
                return
            raise Unsupported('store %r' % (t,))
        n = tsize(t)
        blk = self.check_access(st, p, n, 'write')
        if blk is None:
            return
        if blk.ro:
            self.oblige(st, 'mem', 'write to constant ' + blk.name, False)
        w = iw(t)
        if w and w % 8 and w != 1 and not isinstance(v, Ptr) and v is not UNDEF:
            v = zext(v, w, 8 * n)
        if w == 1 and v is not UNDEF:
            v = zext(v, 1, 8)
        self.write_raw(st, p.b, p.o, n, v)

    def write_raw(self, st, bid, off, n, v):
        if is_sym(off):
            off = simp(off)
        blk = st.mem[bid]
        if isinstance(off, int):
            off &= mask(64)
            if blk.arr is not None and blk.arr.w // 8 == n and off % n == 0 and not isinstance(v, (Ptr, Flt)) and v is not UNDEF and not blk.cells:
                nb = st.wr(bid)
                nb.arr = a_store(nb.arr, off // n, v)
                return
            nb = st.wr(bid)
            if off in nb.cells and nb.cells[off][0] == n:
                nb.cells[off] = (n, v)
                return
            self.clear_range(st, bid, nb, off, n)
            nb.cells[off] = (n, v)
            if nb.arr is not None and not isinstance(v, (Ptr, tuple)):
                self.to_arr(st, bid, n)
            return
        if isinstance(v, Ptr):
            raise Unsupported('pointer stored at a symbolic offset')
        if v is UNDEF:
            v = self.fresh('undef', 8 * n)
        if isinstance(v, Flt):
            v = v.bits
        blk = self.to_arr(st, bid, n)
        es = blk.arr.w // 8
        nb = st.wr(bid)
        if n == es:
            i = self.div_off(st, off, es)
            if i is None:
                raise Unsupported('unaligned symbolic store')
            nb.arr = a_store(nb.arr, i, v)
        elif n > es and n % es == 0:
            for j in range(n // es):
                i = self.div_off(st, add(off, j * es), es)
                if i is None:
                    raise Unsupported('unaligned symbolic store')
                x = (v >> (8 * es * j)) & mask(8 * es) if isinstance(v, int) else z3.Extract(8 * es * (j + 1) - 1, 8 * es * j, v)
                nb.arr = a_store(nb.arr, i, x)
        else:
            raise Unsupported('narrow symbolic store')

    def clear_range(self, st, bid, nb, off, n):
        """remove [off,off+n) from cells, splitting partially overlapped ones"""
        for o in list(nb.cells):
            sz, v = nb.cells[o]
            if o < off + n and off < o + sz:
                del nb.cells[o]
                if o < off or o + sz > off + n:
                    if isinstance(v, (Ptr,)) or v is UNDEF:
                        continue
                    if isinstance(v, Flt):
                        v = v.bits
                    if isinstance(v, (bool, z3.BoolRef)):
                        v = zext(v, 1, 8 * sz)
                    for j in range(sz):
                        if not (off <= o + j < off + n):
                            b = (v >> (8 * j)) & 255 if isinstance(v, int) else simp(z3.Extract(8 * j + 7, 8 * j, v))
                            nb.cells[o + j] = (1, b)

    def arr_of(self, st, bid, es):
        return self.to_arr(st, bid, es).arr

    def memcpy(self, st, d, s, n, move=False):
        if isinstance(n, z3.ExprRef):
            n = simp(n)
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            # a zero-length copy touches nothing
            sb, db = (self.block(st, s.b) if s.b != 0 else None), (self.block(st, d.b) if d.b != 0 else None)
            if sb is None or db is None:
                self.oblige(st, 'mem', 'memcpy null with nonzero size', eq(n, 0))
                return
        else:
            sb = self.check_access(st, s, 0, 'memcpy read')
            db = self.check_access(st, d, 0, 'memcpy write')
            if sb is None or db is None:
                return
        if self.o['safety']:
            for q, blk, wh in ((s, sb, 'source'), (d, db, 'destination')):
                if blk.size is not None:
                    c = Or(eq(n, 0), And(ule(q.o, blk.size), ule(n, sub(blk.size, q.o))))
                    self.oblige(st, 'mem', 'memory copy %s in bounds of %s' % (wh, blk.name), c)
        so, do = simp(s.o), simp(d.o)
        if isinstance(n, int) and isinstance(so, int) and isinstance(do, int) and sb.arr is None and db.arr is None:
            moved = []
            covered = 0
            for o, (sz, v) in sorted(sb.cells.items()):
                if o >= so and o + sz <= so + n:
                    moved.append((o - so, sz, v))
                    covered += sz
                elif o < so + n and so < o + sz:
                    moved = None
                    break
            if moved is not None:
                nb = st.wr(d.b)
                self.clear_range(st, d.b, nb, do, n)
                if covered < n:
                    have = set()
                    for o, sz, v in moved:
                        have.update(range(o, o + sz))
                    for j in range(n):
                        if j not in have:
                            if sb.fill is not None:
                                if nb.fill != sb.fill:
                                    nb.cells[do + j] = (1, sb.fill)
                            else:
                                nb.cells[do + j] = (1, UNDEF)
                for o, sz, v in moved:
                    nb.cells[do + o] = (sz, v)
                return
        es = None
        for q, blk in ((s, sb), (d, db)):
            if blk.arr is not None:
                es = blk.arr.w // 8
        if es is None:
            es = sb.es or db.es or 1
        sa = self.to_arr(st, s.b, es)
        if st.mem[d.b].arr is None and not st.mem[d.b].cells and st.mem[d.b].es is None:
            nb = st.wr(d.b)
            nb.es = sa.arr.w // 8
        da = self.to_arr(st, d.b, es)
        if sa.arr.w != da.arr.w:
            raise Unsupported('memcpy between element sizes %d/%d' % (sa.arr.w, da.arr.w))
        es = sa.arr.w // 8
        di, si, ni = self.div_off(st, do, es), self.div_off(st, so, es), self.div_off(st, n, es)
        if di is None or si is None or ni is None:
            raise Unsupported('memcpy unaligned')
        nb = st.wr(d.b)
        if isinstance(ni, int) and isinstance(di, int) and ni <= 64:
            srcarr = sa.arr
            vals = [srcarr.read(add(si, j)) for j in range(ni)]
            for j in range(ni):
                nb.arr = a_store(nb.arr, add(di, j), vals[j])
        else:
            nb.arr = ACopy(nb.arr, di, ni, sa.arr, si)

    def memset(self, st, d, v, n):
        if is_sym(n):
            n = simp(n)
        if isinstance(n, int) and n == 0:
            return
        blk = self.check_access(st, d, 0, 'memset')
        if blk is None:
            return
        if self.o['safety'] and blk.size is not None:
            self.oblige(st, 'mem', 'memset in bounds of ' + blk.name,
                        Or(eq(n, 0), And(ule(d.o, blk.size), ule(n, sub(blk.size, d.o)))))
        v = trunc(v, 32, 8) if is_sym(v) and v.size() == 32 else v
        if isinstance(v, int):
            v &= 255
        do = simp(d.o)
        if isinstance(n, int) and isinstance(do, int) and blk.arr is None and isinstance(v, int):
            nb = st.wr(d.b)
            if do == 0 and n == blk.size:
                nb.cells = {}
                nb.fill = v
                return
            self.clear_range(st, d.b, nb, do, n)
            if nb.fill == v:
                return
            j = do
            while j < do + n:
                sz = 8 if j % 8 == 0 and j + 8 <= do + n else (4 if j % 4 == 0 and j + 4 <= do + n else 1)
                if blk.es and j % blk.es == 0 and j + blk.es <= do + n:
                    sz = blk.es
                nb.cells[j] = (sz, int.from_bytes(bytes([v]) * sz, 'little'))
                j += sz
            return
        a = self.to_arr(st, d.b, 1)
        es = a.arr.w // 8
        if isinstance(v, int):
            fv = int.from_bytes(bytes([v]) * es, 'little')
        else:
            if es != 1:
                raise Unsupported('memset symbolic value')
            fv = v
        di, ni = self.div_off(st, do, es), self.div_off(st, n, es)
        if di is None or ni is None:
            raise Unsupported('memset unaligned')
        nb = st.wr(d.b)
        nb.arr = ACopy(nb.arr, di, ni, AConst(fv, 8 * es), 0)

    # ------------------------------------------------------------------ values
    def val(self, st, v):
        k = v[0]
        if k == 'v':
            r = st.top.env.get(v[1], UNDEF)
            if r is UNMERGED:
                raise Unsupported('use of a value that could not be merged')
            return r
        return self.const(v, st.top.fn.mod)

    # ------------------------------------------------------------------ running
    def poskey(self, st):
        k = []
        for f in st.frames:
            fn = f.fn
            for h in fn.nest.get(f.bi, ()):
                k.append(fn.order[h])
                k.append(f.iters.get(h, 0))
            k.append(fn.order.get(f.bi, 0))
            k.append(f.ii)
            k.append(f.uid and 0)
        return tuple(k)

    def run(self, states, stop=None, maxit=None):
        """run until every state terminated or satisfies stop(st); returns list of terminated/stopped states"""
        heap = []
        cnt = itertools.count()
        done = []

        def push(s):
            if s.out is not None or (stop and stop(s)):
                done.append(s)
            else:
                heapq.heappush(heap, (self.poskey(s), next(cnt), s))
        for s in states:
            push_raw = s
            heapq.heappush(heap, (self.poskey(s), next(cnt), push_raw))
        while heap:
            key, _, s = heapq.heappop(heap)
            if self.o['merge']:
                same_key = [s]
                while heap and heap[0][0] == key:
                    same_key.append(heapq.heappop(heap)[2])
                if len(same_key) > 1:
                    same_key = self.merge_all(same_key)
                s = same_key[0]
                for x in same_key[1:]:
                    heapq.heappush(heap, (key, next(cnt), x))
                todo = same_key
                if len(same_key) > 1:
                    # avoid re-merging the same unmergeable states: advance all now
                    for _ in range(len(same_key) - 1):
                        heapq.heappop(heap)
            else:
                todo = [s]
            for x in todo:
                for n in self.advance(x):
                    push(n)
            if maxit is not None:
                maxit(done, heap)
        return done

    def merge_all(self, lst):
        out = []
        for s in lst:
            for i, t in enumerate(out):
                m = self.merge(t, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge(self, A, B):
        if len(A.frames) != len(B.frames) or A.exc != B.exc or len(A.caught) != len(B.caught):
            return None
        for x, y in zip(A.caught, B.caught):
            if x != y:
                return None
        for f, g in zip(A.frames, B.frames):
            if f.fn is not g.fn or f.bi != g.bi or f.ii != g.ii:
                return None
        # ghost state
        for k in set(A.ghost) | set(B.ghost):
            if k not in A.ghost or k not in B.ghost or not same(A.ghost[k], B.ghost[k]):
                if A.ghost.get(k) is not B.ghost.get(k):
                    return None
        # path conditions
        n = 0
        while n < len(A.pc) and n < len(B.pc) and (A.pc[n] is B.pc[n] or (not isinstance(A.pc[n], QA) and not isinstance(B.pc[n], QA) and A.pc[n].eq(B.pc[n]))):
            n += 1
        ta, tb = A.pc[n:], B.pc[n:]
        ca = And(*[c for c in ta if not isinstance(c, QA)])
        cb = And(*[c for c in tb if not isinstance(c, QA)])
        cs = self.split_cond(ta, tb, ca, cb)
        if cs is None:
            return None
        try:
            R = State()
            R.exc = A.exc
            R.caught = list(A.caught)
            R.ghost = dict(A.ghost)
            for d, (f, g) in enumerate(zip(A.frames, B.frames)):
                h = f.copy()
                if d == len(A.frames) - 1 and f.ii == 0:
                    live = f.fn.live_in()[f.bi]
                    live = f.fn.live_after_phis(f.bi)
                else:
                    live = None
                for k in set(f.env) | set(g.env):
                    a, b = f.env.get(k, UNMERGED), g.env.get(k, UNMERGED)
                    if a is b or same(a, b):
                        h.env[k] = a
                        continue
                    try:
                        h.env[k] = self.mval(cs, a, b, iw(f.fn.vty(k)))
                    except Unsupported:
                        if live is not None and k not in live:
                            h.env[k] = UNMERGED
                        elif live is None and not self.maybe_live(f, k):
                            h.env[k] = UNMERGED
                        else:
                            return None
                R.frames.append(h)
            R.mem = dict(A.mem)
            for b, blk in B.mem.items():
                o = A.mem.get(b)
                if o is None:
                    R.mem[b] = blk
                elif o is not blk:
                    R.mem[b] = self.merge_block(cs, o, blk)
        except Unsupported:
            return None
        R.pc = A.pc[:n]
        disj = Or(ca, cb)
        disj = simp(disj) if is_sym(disj) else disj
        if disj is not True:
            R.pc.append(bl(disj))
        for c in ta:
            if isinstance(c, QA):
                R.pc.append(c.guarded(cs))
        for c in tb:
            if isinstance(c, QA):
                R.pc.append(c.guarded(Not(cs)))
        return R

    def split_cond(self, ta, tb, ca, cb):
        """a condition that is true exactly on A's side (given ca or cb)"""
        for x in ta:
            if isinstance(x, QA):
                continue
            for y in tb:
                if isinstance(y, QA):
                    continue
                if (z3.is_not(x) and x.arg(0).eq(y)):
                    return x
                if (z3.is_not(y) and y.arg(0).eq(x)):
                    return x
        if ca is True or cb is True:
            return None
        return bl(ca)

    def maybe_live(self, f, k):
        # conservative: live if used in current block at/after ii or live-in of a successor
        fn = f.fn
        fn.live_in()
        if not hasattr(fn, '_suffix'):
            fn._suffix = {}
        kk = (f.bi, f.ii)
        if kk not in fn._suffix:
            s = set()
            for ins in fn.blocks[f.bi][f.ii:]:
                s |= uses(ins)
            for sc in fn.succ[f.bi]:
                s |= fn._live[sc]
                for ins in fn.blocks[sc]:
                    if ins['op'] == 'phi':
                        s |= uses(ins)
            fn._suffix[kk] = s
        return k in fn._suffix[kk]

    def mval(self, c, a, b, w=None):
        if a is b or same(a, b):
            return a
        if a is UNMERGED or b is UNMERGED:
            raise Unsupported('merge')
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
            return Ptr(a.b, ite(c, a.o, b.o, 64))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('merge ptr')
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mval(c, x, y, 32 if i == 1 else None) for i, (x, y) in enumerate(zip(a, b)))
        if isinstance(a, Flt) and isinstance(b, Flt):
            return Flt(a.w, ite(c, a.bits, b.bits, a.w))
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return z3.If(c, bl(a), bl(b))
        if isinstance(a, int) and isinstance(b, int):
            if w is None:
                raise MergeInts()
            return ite(c, a, b, w)
        return ite(c, a, b)

    def merge_block(self, c, a, b):
        if a.freed != b.freed or a.kind != b.kind or a.ro != b.ro:
            raise Unsupported('merge block')
        r = a.copy()
        if not same(a.size, b.size):
            r.size = ite(c, a.size, b.size, 64)
        if a.ghost is not b.ghost:
            if a.ghost is None or b.ghost is None:
                raise Unsupported('merge ghost')
            g = {}
            for k in set(a.ghost) | set(b.ghost):
                if k not in a.ghost or k not in b.ghost:
                    raise Unsupported('merge ghost')
                x, y = a.ghost[k], b.ghost[k]
                if x is y or same(x, y):
                    g[k] = x
                elif hasattr(x, 'merge'):
                    g[k] = x.merge(c, y)
                else:
                    raise Unsupported('merge ghost')
            r.ghost = g
        if a.fill != b.fill:
            raise Unsupported('merge fill')
        if (a.arr is None) != (b.arr is None):
            if a.arr is None:
                return self.merge_block(c, self._arrify(a, b.arr.w // 8), b)
            return self.merge_block(c, a, self._arrify(b, a.arr.w // 8))
        if a.arr is not None and a.arr is not b.arr:
            if a.cells or b.cells:
                raise Unsupported('merge arr+cells')
            r.arr = AIte(c, a.arr, b.arr)
        if a.cells is not b.cells:
            cells = {}
            for o in set(a.cells) | set(b.cells):
                x, y = a.cells.get(o), b.cells.get(o)
                if x is None or y is None:
                    blk = a if x is None else b
                    z = y if x is None else x
                    if blk.fill is not None and isinstance(blk.fill, int) and not self.overlaps(blk, o, z[0]) and not isinstance(z[1], Ptr):
                        fv = int.from_bytes(bytes([blk.fill]) * z[0], 'little')
                        x, y = (x or (z[0], fv)), (y or (z[0], fv))
                    elif blk.fill is None and not self.overlaps(blk, o, z[0]):
                        cells[o] = z     # uninitialised on the other side
                        continue
                    else:
                        raise Unsupported('merge cells')
                if x[0] != y[0]:
                    raise Unsupported('merge cell size')
                if x[1] is y[1] or same(x[1], y[1]):
                    cells[o] = x
                elif x[1] is UNMERGED or y[1] is UNMERGED:
                    cells[o] = (x[0], UNMERGED)
                elif isinstance(x[1], int) and isinstance(y[1], int):
                    cells[o] = (x[0], ite(c, int(x[1]), int(y[1]), 8 * x[0]))
                elif isinstance(x[1], (bool, z3.BoolRef)) != isinstance(y[1], (bool, z3.BoolRef)):
                    cells[o] = (x[0], ite(c, zext(x[1], 1, 8 * x[0]) if isinstance(x[1], (bool, z3.BoolRef)) else x[1],
                                          zext(y[1], 1, 8 * x[0]) if isinstance(y[1], (bool, z3.BoolRef)) else y[1], 8 * x[0]))
                else:
                    cells[o] = (x[0], self.mval(c, x[1], y[1]))
            r.cells = cells
        return r

    def _arrify(self, blk, es):
        s = State()
        s.mem[1] = blk
        return self.to_arr(s, 1, es)

    # ------------------------------------------------------------------ stepping
    def advance(self, st):
        """execute until a scheduling point; returns successor states"""
        while True:
            self.steps += 1
            if self.steps > self.o['steps']:
                raise Budget('steps')
            f = st.top
            ins = f.fn.blocks[f.bi][f.ii]
            op = ins['op']
            h = getattr(self, 'op_' + op, None)
            if h is None:
                raise Unsupported('instruction ' + op)
            r = h(st, f, ins)
            if r is None:
                f.ii += 1
                continue
            return r

    def setv(self, f, ins, v):
        f.env[ins['i']] = v

    def goto(self, st, b):
        """enter block b in the top frame (evaluates phis); returns successor states (loops handled here)"""
        f = st.top
        prev = f.bi
        blk = f.fn.blocks[b]
        vals = []
        n = 0
        for ins in blk:
            if ins['op'] != 'phi':
                break
            n += 1
            for v, p in ins['in']:
                if p == prev:
                    x = self.val(st, v)
                    if x is UNDEF:
                        x = UNDEF
                    vals.append((ins['i'], x))
                    break
        for i, x in vals:
            f.env[i] = x
        f.prev = prev
        f.bi = b
        f.ii = n
        # loop bookkeeping
        if b in f.fn.loops:
            if prev in f.fn.loops[b]:
                f.iters[b] = f.iters.get(b, 0) + 1
                return [st]
            f.iters[b] = 0
            for h in list(f.iters):
                if h != b and b in f.fn.nest.get(h, ()):
                    f.iters[h] = 0
            return self.enter_loop(st, b)
        return [st]

    def op_br(self, st, f, ins):
        if 'o' not in ins:
            return self.goto(st, ins['s'][0])
        c = self.val(st, ins['o'][0])
        if c is UNDEF:
            raise Unsupported('branch on undef')
        c = simp(c) if is_sym(c) else c
        if isinstance(c, (bool, int)):
            return self.goto(st, ins['s'][0] if c else ins['s'][1])
        if self.exit_conds is not None:
            self.exit_conds.append(c)
        out = []
        t = self.feasible(st.pc, c)
        e = self.feasible(st.pc, Not(c)) if t else True
        if t and e:
            s2 = st.copy()
            s2.assume(Not(c))
            st.assume(c)
            out += self.goto(st, ins['s'][0])
            out += self.goto(s2, ins['s'][1])
            return out
        if t:
            return self.goto(st, ins['s'][0])
        return self.goto(st, ins['s'][1])

    def op_switch(self, st, f, ins):
        c = self.val(st, ins['o'][0])
        c = simp(c) if is_sym(c) else c
        if isinstance(c, (int, bool)):
            for k, b in ins['cases']:
                if self.const(k, f.fn.mod) == c:
                    return self.goto(st, b)
            return self.goto(st, ins['def'])
        out = []
        rest = []
        groups = {}
        for k, b in ins['cases']:
            groups.setdefault(b, []).append(eq(c, self.const(k, f.fn.mod), c.size()))
        for b, cs in groups.items():
            cond = Or(*cs)
            rest.append(Not(cond))
            if self.feasible(st.pc, cond):
                s2 = st.copy()
                s2.assume(cond)
                out += self.goto(s2, b)
        r = And(*rest)
        if self.feasible(st.pc, r):
            st.assume(r)
            out += self.goto(st, ins['def'])
        return out

    def op_unreachable(self, st, f, ins):
        st.out = ('unreachable', None)
        return [st]

    def op_ret(self, st, f, ins):
        v = self.val(st, ins['o'][0]) if ins.get('o') else None
        return self.do_return(st, v)

    def do_return(self, st, v):
        f = st.frames.pop()
        for b in f.allocas:
            st.mem.pop(b, None)
        if not st.frames:
            st.out = ('ret', v)
            return [st]
        g = st.top
        ins = g.fn.blocks[g.bi][g.ii]
        return self.after_call(st, ins, v)

    def after_call(self, st, ins, v):
        g = st.top
        if ins['t'] != 'void':
            g.env[ins['i']] = v
        if ins['op'] == 'invoke':
            return self.goto(st, ins['nd'])
        g.ii += 1
        return [st]

    # ---- exceptions
    def tid(self, name):
        return self.tids.setdefault(name, len(self.tids) + 1)

    def ti_bases(self, name):
        if name in EXT_TI:
            return EXT_TI[name]
        for m in self.prog.mods:
            if name in m.glines:
                g = m.glob(name)
                if 'init' in g and g['init'][0] == 'agg':
                    out = []

                    def walk(x):
                        if isinstance(x, list):
                            if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str) and x[1].startswith('_ZTI'):
                                out.append(x[1])
                            else:
                                for y in x:
                                    walk(y)
                    walk(g['init'][2])
                    return out
        return []

    def ti_isa(self, a, b):
        if a == b:
            return True
        return any(self.ti_isa(x, b) for x in self.ti_bases(a))

    def throw(self, st, ptr, tname):
        st.exc = (ptr, tname)
        return self.unwind(st)

    def unwind(self, st):
        while st.frames:
            f = st.top
            ins = f.fn.blocks[f.bi][f.ii]
            if ins['op'] == 'invoke':
                lp = None
                for x in f.fn.blocks[ins['ud']]:
                    if x['op'] == 'landingpad':
                        lp = x
                        break
                sel = None
                for k, c in lp['cl']:
                    if k == 'catch':
                        if c[0] == 'null':
                            sel = self.tid('...')
                            break
                        nm = c[1] if c[0] == 'g' else None
                        if nm and self.ti_isa(st.exc[1], nm):
                            sel = self.tid(nm)
                            break
                    else:
                        # filter (throw-specification): treat empty filter / no match as terminate
                        sel = -1
                        break
                if sel is None and lp['cleanup']:
                    sel = 0
                if sel is not None:
                    st.ghost['lpsel'] = sel
                    return self.goto(st, ins['ud'])
            st.frames.pop()
            for b in f.allocas:
                st.mem.pop(b, None)
        st.out = ('throw', st.exc)
        return [st]

    def op_landingpad(self, st, f, ins):
        sel = st.ghost.pop('lpsel', 0)
        self.setv(f, ins, (st.exc[0], sel & mask(32)))

    def op_resume(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        st.frames.pop()
        for b in f.allocas:
            st.mem.pop(b, None)
        if not st.frames:
            st.out = ('throw', st.exc)
            return [st]
        return self.unwind(st)

    # ---- calls
    def op_call(self, st, f, ins):
        return self.call(st, f, ins)

    def op_invoke(self, st, f, ins):
        return self.call(st, f, ins)

    def call(self, st, f, ins):
        cal = ins['callee']
        if cal[0] == 'asm':
            raise Unsupported('inline asm')
        args = [None if a[0] == 'md' else self.val(st, a) for a in ins['a']]
        if cal[0] == 'g':
            name = cal[1]
            fn = self.prog.find_func(name, f.fn.mod)
            dn = fn.dn if fn is not None else f.fn.mod.dn(name)
        else:
            p = self.val(st, cal)
            if not isinstance(p, Ptr) or not (isinstance(p.b, tuple) and p.b[0] == 'f'):
                if isinstance(p, Ptr) and p.b == 0:
                    self.oblige(st, 'mem', 'call through null', False)
                raise Unsupported('indirect call through %r' % (p,))
            name = p.b[2]
            mod = [m for m in self.prog.mods if m.path == p.b[1]]
            mod = mod[0] if mod else f.fn.mod
            fn = self.prog.find_func(name, mod)
            dn = fn.dn if fn is not None else mod.dn(name)
        for i, n in ins.get('byval', []):
            nb = self.new_block(st, n, 'stack', None, 'byval')
            self.memcpy(st, Ptr(nb, 0), args[i], n)
            args[i] = Ptr(nb, 0)
        # library / callee contract?
        u = self.o['use'].get(dn)
        if u is not None and u[1] != self.o.get('contract'):
            g = self.prog.find_func(u[0])
            if g is not None:
                self.used_specs.add(dn)
                fn, dn, name = g, u[0], u[0]
        c = self.o['contracts'].get(dn)
        if c is None:
            c = self.lib.lookup(name, dn)
            if c is not None:
                self.used_lib.add(dn if len(dn) < 200 else name)
        if c is not None:
            return self.apply_contract(st, ins, c, args, dn)
        if fn is None:
            fn = self.prog.find_func('nvcm_' + name)
            if fn is not None:
                self.used_lib.add(name + ' (reference text nvc/model.cpp)')
                dn = name
        if fn is None:
            raise Unsupported('no body or contract for ' + dn)
        if len(st.frames) > 60:
            raise Unsupported('recursion too deep in ' + dn)
        self.inlined.add(dn)
        g = Frame(fn)
        for a, v in zip(range(fn.nargs), args):
            g.env[a] = v
        st.frames.append(g)
        if 0 in fn.loops:
            g.iters[0] = 0
            return self.enter_loop(st, 0)
        return [st]

    def apply_contract(self, st, ins, c, args, dn):
        """contract handler returns: value | list of (state, value) | ('throw', ptr, tname) via Throw"""
        r = c(self, st, args, ins)
        outs = []
        if isinstance(r, list):
            for s, v in r:
                if isinstance(v, Throw):
                    outs += self.throw_new(s, v)
                elif isinstance(v, Stop):
                    s.out = (v.kind, v.info)
                    outs.append(s)
                elif getattr(c, 'sched', False):
                    raise Unsupported('scheduled contract with several outcomes')
                else:
                    outs += self.after_call(s, s.top.fn.blocks[s.top.bi][s.top.ii], v)
            return outs
        if isinstance(r, Throw):
            return self.throw_new(st, r)
        if isinstance(r, Unwind):
            return self.unwind(st)
        if isinstance(r, Stop):
            st.out = (r.kind, r.info)
            return [st]
        if ins['op'] == 'call':
            if ins['t'] != 'void':
                st.top.env[ins['i']] = r
            st.top.ii += 1
            return [st] if getattr(c, 'sched', False) else self.advance(st)
        return self.after_call(st, ins, r)

    def throw_new(self, st, t):
        if t.ptr is None:
            b = self.new_block(st, 64, 'heap', 0, 'exception')
            p = Ptr(b, 0)
        else:
            p = t.ptr
        return self.throw(st, p, t.tname)

    # ---- plain instructions
    def op_alloca(self, st, f, ins):
        n = self.val(st, ins['o'][0])
        size = ins['size'] * n if isinstance(n, int) else mul(ins['size'], zext(n, n.size(), 64) if n.size() < 64 else n)
        b = self.new_block(st, size, 'stack', None, 'local')
        t = ins['at']
        if isinstance(t, list) and t[0] == 'a' and isinstance(t[3], str) and iw(t[3]):
            st.mem[b].es = t[4]
        f.allocas.append(b)
        self.setv(f, ins, Ptr(b, 0))

    def op_load(self, st, f, ins):
        p = self.val(st, ins['o'][0])
        self.setv(f, ins, self.load(st, p, ins['t']))

    def op_store(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        p = self.val(st, ins['o'][1])
        self.store(st, p, ins['ot'][0], v)

    # one thread; a compare-and-exchange does not fail spuriously (x86)
    def op_cmpxchg(self, st, f, ins):
        p, c, n = (self.val(st, o) for o in ins['o'][:3])
        t = ins['ot'][1]
        cur = self.load(st, p, t)
        ok = simp(eq(bv(cur, iw(t)), bv(c, iw(t)))) if is_sym(cur) or is_sym(c) else cur == c
        if ok is True or (is_sym(ok) and z3.is_true(ok)):
            self.store(st, p, t, n)
            self.setv(f, ins, [cur, 1])
        else:
            self.store(st, p, t, ite(ok, n, cur, iw(t)))
            self.setv(f, ins, [cur, ok])

    def op_atomicrmw(self, st, f, ins):
        p, n = (self.val(st, o) for o in ins['o'][:2])
        t = ins['ot'][1]
        cur = self.load(st, p, t)
        w = iw(t)
        op = {'add': add, 'sub': sub, 'xchg': lambda a, b, w: b}.get(ins['rmw'])
        if op is None:
            raise Unsupported('atomicrmw ' + ins['rmw'])
        self.store(st, p, t, op(cur, n, w))
        self.setv(f, ins, cur)

    def op_fence(self, st, f, ins):
        pass

    def op_getelementptr(self, st, f, ins):
        base, c, vs = ins['gep']
        p = self.val(st, base)
        if isinstance(p, int) and p == 0:
            p = NULL
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        o = add(p.o, c)
        for sc, v, t in vs:
            x = self.val(st, v)
            w = iw(t)
            if x is UNDEF:
                raise Unsupported('gep undef')
            x = sext(x, w, 64) if w < 64 else x
            o = add(o, mul(sc, x))
        self.setv(f, ins, Ptr(p.b, o))

    def op_phi(self, st, f, ins):
        raise Unsupported('phi reached')

    def op_select(self, st, f, ins):
        c = self.val(st, ins['o'][0])
        a, b = self.val(st, ins['o'][1]), self.val(st, ins['o'][2])
        c = simp(c) if is_sym(c) else c
        if isinstance(c, (bool, int)):
            self.setv(f, ins, a if c else b)
            return
        w = iw(ins['t'])
        if w and w > 1 and not isinstance(a, Ptr) and not isinstance(b, Ptr):
            self.setv(f, ins, ite(c, a, b, w))
            return
        if w == 1:
            self.setv(f, ins, z3.If(c, bl(a), bl(b)))
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
            self.setv(f, ins, Ptr(a.b, ite(c, a.o, b.o, 64)))
            return
        if isinstance(a, Flt):
            self.setv(f, ins, Flt(a.w, ite(c, a.bits, b.bits, a.w)))
            return
        # fork
        s2 = st.copy()
        s2.assume(Not(c))
        st.assume(c)
        f.env[ins['i']] = a
        s2.top.env[ins['i']] = b
        f.ii += 1
        s2.top.ii += 1
        return [st, s2]

    def op_freeze(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        if v is UNDEF:
            v = self.havoc_type(ins['t'], 'freeze')
        self.setv(f, ins, v)

    def op_extractvalue(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        for i in ins['ix']:
            v = v[i] if v is not UNDEF else UNDEF
        self.setv(f, ins, v)

    def op_insertvalue(self, st, f, ins):
        a = self.val(st, ins['o'][0])
        v = self.val(st, ins['o'][1])

        def put(a, t, ix):
            if a is UNDEF:
                n = len(t[2]) if t[0] == 's' else t[2]
                a = tuple([UNDEF] * n)
            i = ix[0]
            et = t[2][i][1] if t[0] == 's' else t[3]
            x = v if len(ix) == 1 else put(a[i], et, ix[1:])
            return a[:i] + (x,) + a[i + 1:]
        self.setv(f, ins, put(a, ins['t'], ins['ix']))

    def cast(self, st, f, ins, fn):
        v = self.val(st, ins['o'][0])
        if v is UNDEF:
            v = self.havoc_type(ins['ot'][0], 'undef')
        self.setv(f, ins, fn(v, iw(ins['ot'][0]), iw(ins['t'])))

    def op_zext(self, st, f, ins):
        self.cast(st, f, ins, zext)

    def op_sext(self, st, f, ins):
        self.cast(st, f, ins, sext)

    def op_trunc(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        if isinstance(v, Ptr):
            v = self.ptr_low(v, iw(ins['t']))
            self.setv(f, ins, v)
            return
        self.cast(st, f, ins, trunc)

    def ptr_low(self, p, w):
        if w <= 4:
            return trunc(p.o, 64, w)
        raise Unsupported('truncated pointer')

    def op_bitcast(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        self.setv(f, ins, self.conv(v, ins['t']))

    def op_ptrtoint(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        if isinstance(v, Ptr) and v.b == 0:
            v = v.o
        self.setv(f, ins, v)

    def op_inttoptr(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        if isinstance(v, int):
            v = NULL if v == 0 else Ptr(0, v)
        if not isinstance(v, Ptr):
            raise Unsupported('inttoptr')
        self.setv(f, ins, v)

    def bin(self, st, f, ins):
        a, b = self.val(st, ins['o'][0]), self.val(st, ins['o'][1])
        w = iw(ins['t'])
        if a is UNDEF:
            a = self.havoc_type(ins['t'], 'undef')
        if b is UNDEF:
            b = self.havoc_type(ins['t'], 'undef')
        return a, b, w

    def op_add(self, st, f, ins):
        a, b, w = self.bin(st, f, ins)
        if isinstance(b, Ptr):
            a, b = b, a
        if isinstance(a, Ptr):
            self.setv(f, ins, Ptr(a.b, add(a.o, b)))
            return
        self.setv(f, ins, add(a, b, w))

    def op_sub(self, st, f, ins):
        a, b, w = self.bin(st, f, ins)
        if isinstance(a, Ptr):
            if isinstance(b, Ptr):
                if a.b == b.b:
                    self.setv(f, ins, sub(a.o, b.o))
                    return
                raise Unsupported('difference of unrelated pointers')
            self.setv(f, ins, Ptr(a.b, sub(a.o, b)))
            return
        self.setv(f, ins, sub(a, b, w))

    def op_mul(self, st, f, ins):
        a, b, w = self.bin(st, f, ins)
        self.setv(f, ins, mul(a, b, w))

    def logic(self, st, f, ins, fi, fz, fb):
        a, b, w = self.bin(st, f, ins)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if ins['op'] == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b < 16:
                self.setv(f, ins, a.o & b if isinstance(a.o, int) else simp(bv(a.o, 64) & b))
                return
            raise Unsupported('bit operation on pointer')
        if w == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                self.setv(f, ins, bool(fi(int(a), int(b)) & 1))
            else:
                self.setv(f, ins, fb(bl(a), bl(b)))
            return
        if isinstance(a, int) and isinstance(b, int):
            self.setv(f, ins, fi(a, b) & mask(w))
            return
        if ins['op'] == 'and' and (a == 0 if isinstance(a, int) else False or (isinstance(b, int) and b == 0)):
            self.setv(f, ins, 0)
            return
        if ins['op'] == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    y &= mask(w)
                    if y == mask(w):
                        self.setv(f, ins, x)
                        return
                    n = y.bit_length()
                    if y == mask(n) and n in (8, 16, 32):
                        self.setv(f, ins, zext(trunc(x, w, n), n, w))
                        return
        if ins['op'] in ('or', 'xor'):
            if isinstance(a, int) and a == 0:
                self.setv(f, ins, b)
                return
            if isinstance(b, int) and b == 0:
                self.setv(f, ins, a)
                return
        self.setv(f, ins, fz(bv(a, w), bv(b, w)))

    def op_and(self, st, f, ins):
        self.logic(st, f, ins, lambda a, b: a & b, lambda a, b: a & b, lambda a, b: z3.And(a, b))

    def op_or(self, st, f, ins):
        self.logic(st, f, ins, lambda a, b: a | b, lambda a, b: a | b, lambda a, b: z3.Or(a, b))

    def op_xor(self, st, f, ins):
        self.logic(st, f, ins, lambda a, b: a ^ b, lambda a, b: a ^ b, lambda a, b: z3.Xor(a, b))

    def shift(self, st, f, ins, fi, fz):
        a, b, w = self.bin(st, f, ins)
        # x86 semantics of the shipped build: the count is taken modulo 32 (or 64)
        m = 63 if w == 64 else 31
        if isinstance(b, int):
            b &= m
            if w < 32 and b >= w:
                b = w - 1 if ins['op'] == 'ashr' else w
            if b == 0:
                self.setv(f, ins, a)
                return
        else:
            b = simp(b & z3.BitVecVal(m, w))
        if isinstance(a, int) and isinstance(b, int):
            self.setv(f, ins, fi(a, b, w) & mask(w))
            return
        if ins['op'] in ('ashr', 'lshr') and isinstance(b, int):
            r = self.exact_div(st, a, 1 << b, w, signed=(ins['op'] == 'ashr'))
            if r is not None:
                self.setv(f, ins, r)
                return
        if isinstance(b, int) and b >= w:
            self.setv(f, ins, 0)
            return
        self.setv(f, ins, fz(bv(a, w), bv(b, w)))

    def exact_div(self, st, a, k, w, signed=True):
        """(k*x) / k -> x when the product provably does not overflow"""
        if w != 64 or k <= 1:
            return None
        l = linear(a, w)
        if l is None:
            return None
        c, acc = l
        c = sgn(c, 64)
        if not acc or c % k or any(sgn(q, 64) % k for t, q in acc.values()):
            return None
        r = from_linear(c // k, {i: (t, sgn(q, 64) // k) for i, (t, q) in acc.items()}, 64)
        z = bv(a, 64)
        goal = (z / z3.BitVecVal(k, 64) == bv(r, 64)) if signed else (z3.UDiv(z, z3.BitVecVal(k, 64)) == bv(r, 64))
        # sufficient: |r| < 2^(63)/k
        lim = (1 << 62) // k
        goal = And(bv(r, 64) < lim, bv(r, 64) > -lim) if signed else ult(r, lim)
        ok, _, _ = self.valid(st.pc, goal, 3000)
        return r if ok else None

    def op_shl(self, st, f, ins):
        self.shift(st, f, ins, lambda a, b, w: a << b, lambda a, b: a << b)

    def op_lshr(self, st, f, ins):
        self.shift(st, f, ins, lambda a, b, w: (a & mask(w)) >> b, lambda a, b: z3.LShR(a, b))

    def op_ashr(self, st, f, ins):
        self.shift(st, f, ins, lambda a, b, w: sgn(a, w) >> b, lambda a, b: a >> b)

    def divop(self, st, f, ins, fi, fz, signed):
        a, b, w = self.bin(st, f, ins)
        if isinstance(b, int):
            if b == 0:
                self.oblige(st, 'arith', 'division by zero', False)
                st.out = ('trap', 'division by zero')
                return [st]
        else:
            self.oblige(st, 'arith', 'divisor is not zero', ne(b, 0, w))
        if signed:
            ov = And(eq(a, 1 << (w - 1), w), eq(b, mask(w), w))
            ov = simp(ov) if is_sym(ov) else ov
            if ov is not False and w >= 32:
                self.oblige(st, 'arith', 'no INT_MIN / -1 trap', Not(ov))
        if isinstance(a, int) and isinstance(b, int):
            self.setv(f, ins, fi(a, b, w) & mask(w))
            return
        if ins['op'] in ('sdiv', 'udiv') and isinstance(b, int):
            r = self.exact_div(st, a, sgn(b, w), w, signed=(ins['op'] == 'sdiv')) if sgn(b, w) > 1 else None
            if r is not None:
                self.setv(f, ins, r)
                return
        if not isinstance(b, int) and not isinstance(a, int) and ins['op'] in ('srem', 'sdiv') and w >= 32:
            # not negative operands: the range of the result is a fact of arithmetic the solvers are slow to find
            ok, _, _ = self.valid(st.pc, And(sle(0, a, w), slt(0, b, w)), 2000)
            if ok:
                q = z3.UDiv(a, b)
                r = sub(a, mul(q, b, w), w)
                st.assume(And(sle(0, r, w), slt(r, b, w), sle(r, a, w), sle(0, q, w), sle(q, a, w)))
                self.setv(f, ins, q if ins['op'] == 'sdiv' else r)
                return
        k = w - min(self.lead0(a, w), self.lead0(b, w))
        if k < w:
            # both operands are non-negative and fit k bits: divide at the smallest usual width
            k = [x for x in (8, 16, 32, 64, 128) if x >= k][0]
            x, y = bv(trunc(a, w, k), k), bv(trunc(b, w, k), k)
            if k <= w:
                if ins['op'] in ('sdiv', 'udiv'):
                    r = z3.UDiv(x, y)
                else:
                    r = z3.URem(x, y) if z3.is_bv_value(y) else sub(x, mul(z3.UDiv(x, y), y, k), k)
                self.setv(f, ins, zext(r, k, w))
                return
        self.setv(f, ins, fz(bv(a, w), bv(b, w)))

    def lead0(self, v, w):
        """number of leading bits of v that are syntactically zero"""
        if isinstance(v, int):
            return w - (v & mask(w)).bit_length()
        if z3.is_bv_value(v):
            return w - v.as_long().bit_length()
        k = v.decl().kind()
        if k == z3.Z3_OP_CONCAT:
            n = 0
            for c in v.children():
                z = self.lead0(c, c.size())
                n += z
                if z < c.size():
                    break
            return n
        if k == z3.Z3_OP_ZERO_EXT:
            return w - v.arg(0).size() + self.lead0(v.arg(0), v.arg(0).size())
        if k == z3.Z3_OP_ITE:
            return min(self.lead0(v.arg(1), w), self.lead0(v.arg(2), w))
        return 0

    def op_sdiv(self, st, f, ins):
        def fi(a, b, w):
            a, b = sgn(a, w), sgn(b, w)
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        return self.divop(st, f, ins, fi, lambda a, b: a / b, True)

    def op_srem(self, st, f, ins):
        def fi(a, b, w):
            a, b = sgn(a, w), sgn(b, w)
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        return self.divop(st, f, ins, fi, lambda a, b: z3.SRem(a, b) if z3.is_bv_value(b) else sub(a, mul(a / b, b, a.size()), a.size()), True)

    def op_udiv(self, st, f, ins):
        return self.divop(st, f, ins, lambda a, b, w: (a & mask(w)) // (b & mask(w)), lambda a, b: z3.UDiv(a, b), False)

    def op_urem(self, st, f, ins):
        return self.divop(st, f, ins, lambda a, b, w: (a & mask(w)) % (b & mask(w)), lambda a, b: z3.URem(a, b) if z3.is_bv_value(b) else sub(a, mul(z3.UDiv(a, b), b, a.size()), a.size()), False)

    def op_icmp(self, st, f, ins):
        a, b = self.val(st, ins['o'][0]), self.val(st, ins['o'][1])
        t = ins['ot'][0]
        w = iw(t) or 64
        self.setv(f, ins, self.icmp(st, ins['p'], a, b, w, t))

    def icmp(self, st, p, a, b, w, t):
        if a is UNDEF:
            a = self.havoc_type(t, 'undef')
        if b is UNDEF:
            b = self.havoc_type(t, 'undef')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported('compare pointer with integer')
            if a.b != b.b:
                if p == 'eq':
                    return False
                if p == 'ne':
                    return True
                # relational comparison of unrelated pointers: unspecified
                return self.fresh_bool('ptrcmp')
            a, b, w = a.o, b.o, 64
            if p in ('slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'):
                p = 's' + p[1:]
        if w == 1:
            a, b = zext(a, 1, 8) if not isinstance(a, int) or isinstance(a, bool) else a, zext(b, 1, 8) if not isinstance(b, int) or isinstance(b, bool) else b
            if p in ('eq', 'ne'):
                w = 8
            else:
                raise Unsupported('i1 compare')
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if p == 'eq':
            r = eq(a, b, w)
        elif p == 'ne':
            r = ne(a, b, w)
        elif p == 'ult':
            r = ult(a, b, w)
        elif p == 'ule':
            r = ule(a, b, w)
        elif p == 'ugt':
            r = ult(b, a, w)
        elif p == 'uge':
            r = ule(b, a, w)
        elif p == 'slt':
            r = slt(a, b, w)
        elif p == 'sle':
            r = sle(a, b, w)
        elif p == 'sgt':
            r = slt(b, a, w)
        elif p == 'sge':
            r = sle(b, a, w)
        return r

    # ---- floating point (z3 FP theory on IEEE bit patterns)
    def fpv(self, v):
        if v is UNDEF:
            raise Unsupported('undef float')
        return v.fp()

    def fpres(self, f, ins, e):
        w = 64 if ins['t'] == 'double' else 32
        r = z3.simplify(e)
        self.setv(f, ins, Flt(w, simp(z3.fpToIEEEBV(r))))

    def fpbin(self, st, f, ins, fn):
        a, b = self.val(st, ins['o'][0]), self.val(st, ins['o'][1])
        self.fpres(f, ins, fn(z3.RNE(), self.fpv(a), self.fpv(b)))

    def op_fadd(self, st, f, ins):
        self.fpbin(st, f, ins, z3.fpAdd)

    def op_fsub(self, st, f, ins):
        self.fpbin(st, f, ins, z3.fpSub)

    def op_fmul(self, st, f, ins):
        self.fpbin(st, f, ins, z3.fpMul)

    def op_fdiv(self, st, f, ins):
        self.fpbin(st, f, ins, z3.fpDiv)

    def op_fneg(self, st, f, ins):
        a = self.val(st, ins['o'][0])
        if isinstance(a.bits, int):
            self.setv(f, ins, Flt(a.w, a.bits ^ (1 << (a.w - 1))))
        else:
            self.setv(f, ins, Flt(a.w, a.bits ^ (1 << (a.w - 1))))

    def op_fcmp(self, st, f, ins):
        a, b = self.fpv(self.val(st, ins['o'][0])), self.fpv(self.val(st, ins['o'][1]))
        p = ins['p']
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ(a, b), 'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b))), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b),
                'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b)}
        if p == 'uno':
            r = un
        elif p == 'ord':
            r = z3.Not(un)
        elif p[0] == 'o':
            r = base[p[1:]]
        elif p == 'une':
            r = z3.Not(z3.fpEQ(a, b))
        else:
            r = z3.Or(un, base[p[1:]])
        self.setv(f, ins, simp(r))

    def op_sitofp(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        w = iw(ins['ot'][0])
        s = z3.Float64() if ins['t'] == 'double' else z3.Float32()
        self.fpres(f, ins, z3.fpSignedToFP(z3.RNE(), bv(v, w), s))

    def op_uitofp(self, st, f, ins):
        v = self.val(st, ins['o'][0])
        w = iw(ins['ot'][0])
        s = z3.Float64() if ins['t'] == 'double' else z3.Float32()
        self.fpres(f, ins, z3.fpToFP(z3.RNE(), bv(v, w), s) if False else z3.fpUnsignedToFP(z3.RNE(), bv(v, w), s))

    def op_fptosi(self, st, f, ins):
        v = self.fpv(self.val(st, ins['o'][0]))
        w = iw(ins['t'])
        # x86 cvttsd2si: out of range / NaN give INT_MIN
        rw = 32 if w <= 32 else 64
        s = self.val(st, ins['o'][0])
        srt = v.sort()
        lo, hi = z3.fpRealToFP(z3.RNE(), z3.RealVal(-(1 << (rw - 1))), srt) if False else z3.FPVal(-float(1 << (rw - 1)), srt), z3.FPVal(float(1 << (rw - 1)), srt)
        if w < 32:
            raise Unsupported('fptosi small')
        lo1 = z3.FPVal(-float(1 << (rw - 1)) - 1.0, srt) if rw == 32 and srt == z3.Float64() else None
        inr = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, hi), z3.fpGT(v, lo1) if lo1 is not None else z3.fpGEQ(v, lo))
        self.setv(f, ins, simp(z3.If(inr, z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(rw)), z3.BitVecVal(1 << (rw - 1), rw))))

    def op_fpext(self, st, f, ins):
        v = self.fpv(self.val(st, ins['o'][0]))
        if ins['t'] != 'double':
            raise Unsupported('fpext ' + str(ins['t']))
        self.fpres(f, ins, z3.fpFPToFP(z3.RNE(), v, z3.Float64()))

    def op_fptrunc(self, st, f, ins):
        v = self.fpv(self.val(st, ins['o'][0]))
        self.fpres(f, ins, z3.fpFPToFP(z3.RNE(), v, z3.Float32()))

    # ------------------------------------------------------------------ loops
    def enter_loop(self, st, h):
        f = st.top
        key = (f.fn.key(), h)
        depth = len(st.frames) - 1
        loop = f.fn.loops[h]
        mode = self.loop_mode.get(key)
        if mode is None:
            mode = 'unroll'
        if mode == 'unroll':
            snap = st.copy()
            nob = len(self.obls)
            ec = self.exit_conds
            if ec is not None:
                nec = len(ec)
            try:
                return self.loop_unroll(st, depth, h, loop)
            except LoopNeedsInvariant:
                del self.obls[nob:]
                if ec is not None:
                    del ec[nec:]
                self.loop_mode[key] = 'inv'
                st = snap
        return self.loop_inv(st, depth, h, loop)

    def in_loop_stop(self, depth, h, loop):
        def stop(s):
            if len(s.frames) <= depth:
                return True
            f = s.frames[depth]
            if f.bi not in loop:
                return True
            return False
        return stop

    def loop_unroll(self, st, depth, h, loop):
        base = self.in_loop_stop(depth, h, loop)
        sym_ok = self.unroll_limit(st, h)
        maxu = sym_ok if sym_ok else self.o['max_unroll']

        dropped = [0]

        def stop(s):
            if base(s):
                return True
            f = s.frames[depth]
            if len(s.frames) == depth + 1 and f.bi == h and f.iters.get(h, 0) > maxu:
                if sym_ok:
                    if self.o['bounded']:
                        s.out = ('dropped', None)
                        self.truncated = True
                        return True
                    # complete unwinding: the state must be infeasible
                    if self.sat(s.pc, [], 5000) == 'unsat':
                        s.out = ('dropped', None)
                        return True
                    raise LoopNeedsInvariant()
                raise LoopNeedsInvariant()
            return False

        def maxit(done, heap):
            if not sym_ok and done and heap:
                raise LoopNeedsInvariant()
        r = self.run([st], stop, maxit)
        return [s for s in r if not (s.out and s.out[0] == 'dropped')]

    def trip_bound(self, st, h):
        """the loop header compares a counter that starts concrete with a constant: at most this many iterations
        (checked by the unwinding: a state that goes on further must be infeasible)"""
        f = st.top
        blk = f.fn.blocks[h]
        t = blk[-1]
        if t['op'] != 'br' or len(t.get('o') or ()) < 1:
            return None
        defs = {i['i']: i for i in blk if 'i' in i}
        c = t['o'][0]
        if c[0] != 'v' or c[1] not in defs:
            return None
        c = defs[c[1]]
        if c['op'] != 'icmp':
            return None
        vals = []
        for o in c['o']:
            n = 0
            while o[0] == 'v' and o[1] in defs and defs[o[1]]['op'] in ('zext', 'sext', 'trunc', 'add', 'sub') and n < 4:
                d = defs[o[1]]
                if d['op'] in ('add', 'sub') and d['o'][1][0] == 'v':
                    break
                o = d['o'][0]
                n += 1
            if o[0] == 'v' and o[1] in defs and defs[o[1]]['op'] == 'phi':
                v = f.env.get(o[1])
                w = iw(f.fn.vty(o[1]))
                vals.append(('phi', sgn(v, w) if isinstance(v, int) and w else None))
            else:
                try:
                    v = self.val(st, o)
                except Exception:
                    return None
                vals.append(('k', sgn(v, 64) if isinstance(v, int) else None))
        kinds = sorted(k for k, v in vals)
        if kinds != ['k', 'phi'] or any(v is None for k, v in vals):
            return None
        a, b = vals[0][1], vals[1][1]
        d = abs(a - b)
        return d + 2 if d <= 70 else None

    def unroll_limit(self, st, h):
        b = self.o['bounded']
        dn = st.top.fn.dn
        t = self.trip_bound(st, h)
        if t is not None:
            return t
        for pat, n in self.o['unroll_sym'].items():
            if pat in dn:
                return n
        return b

    # loop variables: ('env', id) for header phis, ('mem', block, off, size) for cells, ('off',..) same with pointer
    def loop_inv(self, st, depth, h, loop):
        peel = self.o.get('peel')
        if peel and re.search(peel, st.frames[depth].fn.name):
            # the first iteration on its own, then the loop from the states that go on
            base, it0, out = self.in_loop_stop(depth, h, loop), st.frames[depth].iters.get(h, 0), []

            def stop(s):
                return base(s) or len(s.frames) == depth + 1 and s.frames[depth].bi == h and s.frames[depth].iters.get(h, 0) > it0
            for s in self.run([st], stop):
                if s.out is None and len(s.frames) == depth + 1 and s.frames[depth].bi == h:
                    s.frames[depth].iters[h] = it0
                    if self.valid(s.pc, z3.BoolVal(False), 8000)[0]:
                        continue
                    out += self.loop_inv0(s, depth, h, loop)
                else:
                    out.append(s)
            return out
        return self.loop_inv0(st, depth, h, loop)

    def loop_inv0(self, st, depth, h, loop):
        S0 = st
        fn = st.frames[depth].fn
        phis = [ins for ins in fn.blocks[h] if ins['op'] == 'phi']
        L = LoopCtx(self, S0, depth, h, loop, phis)
        L.discover()
        L.houdini()
        return L.finish()


class LoopVar:
    """something the loop body changes: accessor + width"""
    def __init__(self, kind, key, w, get, put):
        self.kind, self.key, self.w, self.get, self.put = kind, key, w, get, put
        self.step = None
        self.sym = None
        self.es = None       # element size: the variable is es * sym

    def __repr__(self):
        return 'LV(%s,%s,w%s,step=%s)' % (self.kind, self.key, self.w, self.step)


class LoopCtx:
    def __init__(self, ex, S0, depth, h, loop, phis):
        self.ex, self.S0, self.depth, self.h, self.loop, self.phis = ex, S0, depth, h, loop, phis
        self.vars = {}        # key -> LoopVar
        self.arrs = {}        # block id -> True   (array contents modified)
        self.dead = set()
        self.cands = []
        self.frame_fn = S0.frames[depth].fn
        self.H = None
        self.k = None

    # ---- accessors
    def val_of(self, s, key):
        if key[0] == 'env':
            return s.frames[self.depth].env.get(key[1], UNDEF)
        if key[0] == 'mem':
            blk = s.mem.get(key[1])
            if blk is None:
                return UNDEF
            c = blk.cells.get(key[2])
            return c[1] if c else UNDEF
        if key[0] == 'size':
            return s.mem[key[1]].size
        if key[0] == 'ghost':
            return (s.mem[key[1]].ghost or {}).get(key[2])

    def set_val(self, s, key, v):
        if key[0] == 'env':
            s.frames[self.depth].env[key[1]] = v
        elif key[0] == 'mem':
            b = s.wr(key[1])
            b.cells[key[2]] = (key[3], v)
        elif key[0] == 'size':
            s.wr(key[1]).size = v
        elif key[0] == 'ghost':
            b = s.wr(key[1])
            b.ghost = dict(b.ghost or {})
            b.ghost[key[2]] = v

    def num(self, v, w, lv=None):
        """numeric (bit-vector) view of a loop variable value (in elements for positions in element-sized blocks)"""
        if lv is not None and lv.es not in (None, 1):
            o = v.o if isinstance(v, Ptr) else v
            d = self.ex.div_off(None, simp(o) if is_sym(o) else o, lv.es)
            if d is None:
                raise Unsupported('loop position is not at an element boundary')
            return d
        if isinstance(v, Ptr):
            return v.o
        if isinstance(v, Flt):
            return v.bits
        if isinstance(v, (bool, z3.BoolRef)):
            return zext(v, 1, w)
        return v

    def width_of(self, key, v, t=None):
        if isinstance(v, Ptr):
            return 64
        if t is not None:
            w = iw(t)
            if w == 1:
                return 8
            if w:
                return w
            if t == 'ptr':
                return 64
            if t == 'double':
                return 64
            if t == 'float':
                return 32
        if key[0] == 'mem':
            return key[3] * 8
        if key[0] == 'size':
            return 64
        raise Unsupported('loop variable type')

    def elem(self, key, lv, v0):
        """element size when the variable is a position in (or the size of) a block of wider elements"""
        b = lv.blk if lv.kind == 'ptr' else key[1] if key[0] == 'size' else None
        if b is None or v0 is UNDEF:
            return 1
        blk = self.S0.mem.get(b)
        if blk is None:
            return 1
        es = blk.arr.w // 8 if blk.arr is not None else (blk.es or 1)
        if es > 1:
            o = v0.o if isinstance(v0, Ptr) else v0
            if self.ex.div_off(None, simp(o) if is_sym(o) else o, es) is None:
                return 1
        return es

    def havoc(self, mk_arr=True):
        """state at an arbitrary iteration"""
        ex = self.ex
        s = self.S0.copy()
        self.k = ex.fresh('iter', 64)
        self._hlimit = None
        s.assume(ult(self.k, 1 << 62))
        for key, lv in self.vars.items():
            v0 = self.val_of(self.S0, key)
            if lv.kind == 'ghost':
                self.set_val(s, key, v0.havoc(ex))
                continue
            if lv.es is None:
                lv.es = self.elem(key, lv, v0)
            if lv.step is not None:
                kk = trunc(self.k, 64, lv.w) if lv.w < 64 else self.k
                x = add(self.num(v0, lv.w, lv), mul(lv.step, kk, lv.w), lv.w)
            else:
                x = ex.fresh('lv', lv.w)
                if lv.es > 1:
                    s.assume(And(sle(-(1 << 58) & mask(64), x), sle(x, 1 << 58)))
            lv.sym = x
            if lv.es > 1:
                x = mul(lv.es, x, lv.w)
            if lv.kind == 'ptr':
                b = v0.b if isinstance(v0, Ptr) else lv.blk
                self.set_val(s, key, Ptr(b, x))
            elif lv.kind == 'bool':
                self.set_val(s, key, ex.fresh_bool('lvb') if lv.step is None else trunc(x, lv.w, 1))
            elif lv.kind == 'flt':
                self.set_val(s, key, Flt(lv.w, x))
            else:
                self.set_val(s, key, x)
        for b in self.arrs:
            blk = s.wr(b)
            if blk.arr is None or blk.cells:
                es = self.arrs[b]
                s.mem[b] = blk
                blk = ex.to_arr(s, b, es)
                blk = s.wr(b)
            blk.arr = ex.fresh_arr('lp_' + (blk.name or 'a'), blk.arr.w)
        self._hlimit = ex.nfresh
        return s

    def body(self, H):
        """run one iteration; returns (back-edge states, exit states)"""
        ex = self.ex
        base = ex.in_loop_stop(self.depth, self.h, self.loop)
        it0 = H.frames[self.depth].iters.get(self.h, 0)

        def stop(s):
            if base(s):
                return True
            f = s.frames[self.depth]
            return len(s.frames) == self.depth + 1 and f.bi == self.h and f.iters.get(self.h, 0) > it0
        r = ex.run([H.copy()], stop)
        back, exits = [], []
        for s in r:
            if s.out is None and len(s.frames) == self.depth + 1 and s.frames[self.depth].bi == self.h:
                s.frames[self.depth].iters[self.h] = it0
                back.append(s)
            else:
                exits.append(s)
        return back, exits

    def discover(self):
        ex = self.ex
        for ins in self.phis:
            key = ('env', ins['i'])
            v0 = self.val_of(self.S0, key)
            self.add_var(key, v0, ins['t'])
        rec, ex.recording = ex.recording, False
        try:
            for rnd in range(8):
                H = self.havoc()
                self.H = H
                back, exits = self.body(H)
                ch = False
                for s in back:
                    ch |= self.scan(H, s)
                if not ch:
                    break
            else:
                raise Unsupported('loop effect does not stabilise')
            # closed forms
            self.steps(back)
            for rnd in range(12):
                if rnd == 10:
                    for lv in self.vars.values():
                        lv.step = None
                ex.exit_conds = []
                H = self.havoc()
                self.H = H
                save_ec = ex.exit_conds
                back, exits = self.body(H)
                self.conds = save_ec
                ex.exit_conds = None
                if not self.recheck_steps(back):
                    break
        finally:
            ex.recording = rec
            ex.exit_conds = None
        self.back0 = back
        self.mkcands()
        try:
            self.cands += self.array_cands(self.H, back, None)
        except Unsupported:
            pass

    def add_var(self, key, v0, t=None, vnew=None):
        if v0 is UNDEF and vnew is None:
            # uninitialised at entry: fresh scalar
            if t == 'ptr':
                raise Unsupported('uninitialised pointer loop variable')
            lv = LoopVar('bool' if iw(t or '') == 1 else 'int', key, self.width_of(key, 0, t), None, None)
        elif isinstance(v0, Ptr):
            lv = LoopVar('ptr', key, 64, None, None)
            lv.blk = v0.b
        elif isinstance(v0, Flt):
            lv = LoopVar('flt', key, v0.w, None, None)
        elif isinstance(v0, (bool, z3.BoolRef)):
            lv = LoopVar('bool', key, 8, None, None)
        elif hasattr(v0, 'havoc'):
            lv = LoopVar('ghost', key, 0, None, None)
        else:
            lv = LoopVar('int', key, self.width_of(key, v0, t), None, None)
        self.vars[key] = lv

    def scan(self, H, s):
        ch = False
        for key, lv in self.vars.items():
            if lv.kind == 'ptr':
                v = self.val_of(s, key)
                if not isinstance(v, Ptr) or v.b != lv.blk:
                    raise Unsupported('loop variable points to different blocks')
        for b, blk in s.mem.items():
            o = H.mem.get(b)
            if o is blk or o is None:
                continue
            if b in H.mem and blk.kind == 'global' and b not in self.S0.mem:
                continue
            if o.freed != blk.freed:
                raise Unsupported('loop frees memory')
            if not same(o.size, blk.size):
                key = ('size', b)
                if key not in self.vars:
                    self.vars[key] = LoopVar('int', key, 64, None, None)
                    ch = True
            if o.ghost is not blk.ghost:
                for gk in set(o.ghost or {}) | set(blk.ghost or {}):
                    x, y = (o.ghost or {}).get(gk), (blk.ghost or {}).get(gk)
                    if x is not y and not same(x, y):
                        key = ('ghost', b, gk)
                        if key not in self.vars:
                            self.add_var(key, x)
                            ch = True
            if o.arr is not blk.arr and b not in self.arrs:
                if b not in self.S0.mem:
                    continue
                if o.arr is None:
                    # became array backed inside the body; if contents identical nothing else to do
                    self.arrs[b] = blk.arr.w // 8
                else:
                    self.arrs[b] = o.arr.w // 8
                ch = True
            if b in self.arrs and (blk.arr is not None or o.arr is not None):
                continue
            for off in set(o.cells) | set(blk.cells):
                x, y = o.cells.get(off), blk.cells.get(off)
                if x is y or (x and y and x[0] == y[0] and same(x[1], y[1])):
                    continue
                if x is None and y is not None:
                    # cell appears: give it an uninitialised / filled entry value
                    key = ('mem', b, off, y[0])
                    if key in self.vars or key in self.dead:
                        continue
                    if b not in self.S0.mem:
                        continue
                    sb = self.S0.mem[b]
                    if off not in sb.cells:
                        nb = self.S0.wr(b)
                        if ex_overlap(nb, off, y[0]):
                            raise Unsupported('loop re-partitions a memory cell')
                        if isinstance(y[1], Ptr):
                            nb.cells[off] = (y[0], UNDEF)
                        elif nb.fill is not None:
                            nb.cells[off] = (y[0], int.from_bytes(bytes([nb.fill]) * y[0], 'little'))
                        else:
                            nb.cells[off] = (y[0], self.ex.fresh('uninit', 8 * y[0]))
                    self.mem_var(key, self.S0.mem[b].cells[off][1], y[1])
                    ch = True
                    continue
                if y is None or x[0] != y[0]:
                    raise Unsupported('loop re-partitions a memory cell')
                key = ('mem', b, off, x[0])
                if key in self.dead:
                    continue
                if key not in self.vars:
                    self.mem_var(key, x[1], y[1])
                    ch = True
        return ch

    def mem_var(self, key, v0, v1):
        if isinstance(v1, Ptr) and not isinstance(v0, Ptr):
            if v0 is UNDEF:
                self.dead.add(key)      # unknown at the start of every iteration
                return
            raise Unsupported('pointer cell initialised in loop')
        if isinstance(v0, Ptr):
            if not isinstance(v1, Ptr) or v1.b != v0.b:
                raise Unsupported('loop changes a pointer cell to another block')
        if v0 is UNDEF:
            lv = LoopVar('int', key, key[3] * 8, None, None)
            self.vars[key] = lv
            return
        self.add_var(key, v0)
        if self.vars[key].kind == 'int':
            self.vars[key].w = key[3] * 8

    def steps(self, back):
        for key, lv in self.vars.items():
            if lv.kind not in ('int', 'ptr') or not back:
                continue
            v0 = self.val_of(self.S0, key)
            if v0 is UNDEF:
                continue
            step = None
            ok = True
            for s in back:
                v = self.val_of(s, key)
                if v is UNDEF or isinstance(v, (bool, z3.BoolRef)) or (isinstance(v, Ptr) != (lv.kind == 'ptr')):
                    ok = False
                    break
                d = self.delta(self.num(v, lv.w, lv), lv.sym, lv.w)
                if d is None or (step is not None and d != step):
                    ok = False
                    break
                step = d
            if ok and step is not None:
                lv.step = step

    def delta(self, v, sym, w):
        d = sub(v, sym, w) if is_sym(v) or is_sym(sym) else (v - sym) & mask(w)
        if is_sym(d):
            d = simp(d)
        if not isinstance(d, int):
            l = linear(d, w)
            if l is not None and not l[1]:
                return l[0]
            # sign/zero extension commutes with +const only without overflow: leave it to invariants
            return None
        return d

    def recheck_steps(self, back):
        """closed forms assumed: verify they hold on the back edge (k+1); drop those that do not"""
        ch = False
        for key, lv in self.vars.items():
            if lv.step is None:
                continue
            v0 = self.num(self.val_of(self.S0, key), lv.w, lv)
            k1 = add(self.k, 1)
            kk = trunc(k1, 64, lv.w) if lv.w < 64 else k1
            want = add(v0, mul(lv.step, kk, lv.w), lv.w)
            for s in back:
                v = self.num(self.val_of(s, key), lv.w, lv)
                ok = self.ex.valid(s.pc, eq(v, want, lv.w), 5000)[0]
                if not ok:
                    lv.step = None
                    ch = True
                    break
        return ch

    # ---- candidates
    def mkcands(self):
        """candidates: (name, pred(state, k) -> cond or QA)"""
        ex = self.ex
        C = []
        seen = set()

        def addterm(name, term):
            """term over the symbols of the header state"""
            if not is_sym(term):
                return
            t = simp(term)
            if not is_sym(t):
                return
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            keep.append(t)
            syms = [(lv.sym, key) for key, lv in self.vars.items() if lv.sym is not None and lv.step is None and is_sym(lv.sym) and lv.kind != 'ghost']
            k = self.k

            def pred(s, kval, t=t, syms=syms, k=k):
                subs = [(k, bv(kval, 64))]
                for sm, key in syms:
                    v = self.val_of(s, key)
                    if v is UNDEF:
                        if self.uses_ids(t, {sm.get_id()}):
                            return False
                        continue
                    v = self.num(v, sm.size(), self.vars[key])
                    subs.append((sm, bv(v, sm.size())))
                return z3.substitute(t, *subs)
            C.append((name, pred))
        keep = self._keep = []
        hv = set()
        for lv in self.vars.values():
            if lv.sym is not None and is_sym(lv.sym) and lv.step is None:
                hv.add(lv.sym.get_id())
        hv.add(self.k.get_id())
        conds = []
        for c in self.conds or []:
            self.split(c, conds)
        for c in conds:
            if not self.only_header_terms(c):
                continue
            for nm, t in weaken(c):
                addterm(nm, t)
        ivars = [(key, lv) for key, lv in self.vars.items() if lv.kind in ('int', 'ptr') and lv.sym is not None]
        for key, lv in ivars:
            if lv.step is not None and (not is_sym(lv.sym)):
                continue
            v0 = self.val_of(self.S0, key)
            w = lv.w
            if v0 is UNDEF:
                continue
            v0 = self.num(v0, w, lv)
            x = bv(lv.sym, w)
            if lv.es and lv.es > 1 and lv.step is None:
                (addterm("position range", And(sle(-(1 << 58) & mask(64), x), sle(x, 1 << 58))))
            addterm('ge-init', sle(v0, x, w))
            addterm('le-init', sle(x, v0, w))
            addterm('nonneg', sle(0, x, w))
            if lv.step is None:
                kk = trunc(self.k, 64, w) if w < 64 else self.k
                addterm('le-init+k', And(sle(x, add(v0, kk, w), w)))
                if w == 64:
                    for m in (2, 3, 4, 8):
                        addterm('le-init+%dk' % m, And(sle(x, add(v0, mul(m, kk, w), w), w)))
                if w < 64:
                    addterm('le64', sle(sext(x, w, 64), add(sext(v0, w, 64), self.k)))
        for key, lv in ivars:
            if lv.step is not None and is_sym(lv.sym) and lv.w < 64 and self.val_of(self.S0, key) is not UNDEF:
                v0 = self.num(self.val_of(self.S0, key), lv.w, lv)
                d = sgn(lv.step, lv.w) & mask(64)
                addterm('no-wrap', eq(sext(lv.sym, lv.w, 64), add(sext(v0, lv.w, 64), mul(d, self.k))))
        # bounds by ghost values of the contract (draws whose name starts with ghost)
        for nm, (kind, g) in self.ex.inputs.items():
            if not nm.startswith('ghost') or not isinstance(g, z3.BitVecRef):
                continue
            for key, lv in ivars:
                if lv.step is None and lv.kind == 'int' and is_sym(lv.sym) and lv.w in (32, 64):
                    x, y = sext(lv.sym, lv.w, 64), sext(g, g.size(), 64)
                    addterm('ghost>=', sle(y, x))
                    addterm('ghost<=', sle(x, y))
                    addterm('ghost==', eq(x, y))
        # variables that only move while a comparison with the loop position holds
        for key, lv in ivars:
            if lv.step is not None or not is_sym(lv.sym):
                continue
            ds = self.leaf_deltas(key, lv)
            v0 = self.val_of(self.S0, key)
            if not ds or v0 is UNDEF or len(ds) > 3:
                continue
            v0, w = self.num(v0, lv.w, lv), lv.w
            pos = set()
            for c in conds:
                if not (z3.is_app(c) and c.num_args() == 2 and isinstance(c.arg(0), z3.BitVecRef)) or not self.only_header_terms(c):
                    continue
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if (a.get_id(), b.get_id()) in pos or not self.uses_ids(a, {self.k.get_id()}) or self.uses_ids(a, hv - {self.k.get_id()}) or self.uses_ids(b, hv) or a.eq(lv.sym):
                        continue
                    pos.add((a.get_id(), b.get_id()))
                    if len(pos) > 8:
                        continue
                    aw = a.size()
                    a0 = z3.substitute(a, (self.k, z3.BitVecVal(0, 64)))
                    W = max(aw, w)
                    A, A0, Bv = sext(a, aw, W), sext(a0, aw, W), sext(b, aw, W)
                    one = 1
                    cnts = [ite(sle(Bv, A, W), sub(A, Bv, W), 0, W), ite(slt(Bv, A, W), sub(sub(A, Bv, W), one, W), 0, W),
                            ite(slt(A, Bv, W), sub(A, A0, W), ite(slt(A0, Bv, W), sub(Bv, A0, W), 0, W), W),
                            ite(sle(A, Bv, W), sub(A, A0, W), ite(sle(A0, Bv, W), sub(add(Bv, one, W), A0, W), 0, W), W)]
                    for n in cnts:
                        for d in ds:
                            addterm('moves-while', eq(lv.sym, add(v0, mul(d, trunc(n, W, w) if W > w else n, w), w), w))
        # pairwise relations
        for (k1, a), (k2, b) in itertools.combinations(ivars, 2):
            if a.w == b.w and is_sym(a.sym) and is_sym(b.sym) and not (a.step is not None and b.step is not None) and len(ivars) <= 8:
                addterm('pair<=', sle(a.sym, b.sym, a.w))
                addterm('pair>=', sle(b.sym, a.sym, a.w))
                try:
                    v1, v2 = self.num(self.val_of(self.S0, k1), a.w, a), self.num(self.val_of(self.S0, k2), b.w, b)
                    addterm('pair-diff', eq(sub(a.sym, b.sym, a.w), sub(v1, v2, a.w), a.w))
                except Exception:
                    pass
        for hint in ex.o['loop_hints']:
            try:
                for name, pred in hint(ex, self):
                    C.append((name, pred))
            except Unsupported:
                pass
        self.cands = C

    def leaf_deltas(self, key, lv):
        out = set()

        def go(v, n=0):
            if n > 6:
                return
            if is_sym(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                go(v.arg(1), n + 1)
                go(v.arg(2), n + 1)
                return
            d = self.delta(v, lv.sym, lv.w)
            if isinstance(d, int) and d:
                out.add(d)
        for s in self.back0:
            v = self.val_of(s, key)
            if v is not UNDEF:
                v = self.num(v, lv.w, lv)
                go(simp(v) if is_sym(v) else v)
        return out

    def split(self, c, out):
        if z3.is_and(c) or z3.is_or(c):
            for x in c.children():
                self.split(x, out)
        elif z3.is_not(c):
            self.split(c.arg(0), out)
        else:
            out.append(c)

    def only_header_terms(self, c):
        """does the condition only mention symbols that exist at the header (or before)?"""
        if not hasattr(self, '_known'):
            self._known = {}
        n0 = self.h_fresh_limit()
        st = [c]
        seen = set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = e.decl().name()
                if '!' in nm:
                    try:
                        if int(nm.rsplit('!', 1)[1]) > n0:
                            return False
                    except ValueError:
                        pass
                if isinstance(e.sort(), z3.ArraySortRef) and nm.startswith('lp_'):
                    return False
            st.extend(e.children())
        return True

    def h_fresh_limit(self):
        return self._hlimit

    def assume_cands(self, s, cands, k):
        for nm, pred in cands:
            c = pred(s, k)
            if c is None:
                continue
            s.assume(c)

    def refuted(self, pc, cs, tmo):
        """indices of the conditions that do not follow from pc"""
        ex = self.ex
        bad = set()
        plain, quant = [], []
        for i, c in cs:
            if c is None or c is False:
                bad.add(i)
            elif isinstance(c, QA):
                quant.append((i, c))
            else:
                c = simp(c) if is_sym(c) else c
                if c is False:
                    bad.add(i)
                elif c is not True:
                    plain.append((i, c))
        for _ in range(30):
            if len(plain) < 2:
                break
            r, m, s = ex.sat(pc, [Not(And(*[c for i, c in plain]))], tmo, True)
            if r == 'unsat':
                plain = []
                break
            if r != 'sat':
                break
            drop = {i for i, c in plain if z3.is_false(m.eval(bl(c), model_completion=True))}
            if not drop:
                break
            bad |= drop
            plain = [(i, c) for i, c in plain if i not in drop]
        for i, c in plain + quant:
            if not ex.valid(pc, c, tmo)[0]:
                bad.add(i)
        return bad

    def run_houdini(self, cands, base, facts0, factsH, factsB, rounds, hq):
        """largest inductive subset of cands (in addition to the invariants base)"""
        ex = self.ex
        alive = []
        pc0 = self.S0.pc + facts0
        cs = [(i, pred(self.S0, 0)) for i, (nm, pred) in enumerate(cands)]
        bad = self.refuted(pc0, cs, 4000)
        alive = [c for i, c in enumerate(cands) if i not in bad]
        for rnd in range(rounds):
            if not alive and base is not None:
                return []
            H = self.havoc_again()
            self.assume_cands(H, (base or []) + alive, self.k)
            for c in factsH:
                H.assume(c)
            back, exits = self.body(H)
            k1 = add(self.k, 1)
            bad = set()
            for s in back:
                for c in factsB(s):
                    s.assume(c)
                bad |= self.refuted(s.pc, [(i, pred(s, k1)) for i, (nm, pred) in enumerate(alive) if i not in bad], hq)
            if not bad:
                return alive
            alive = [c for i, c in enumerate(alive) if i not in bad]
        return []

    def houdini(self):
        ex = self.ex
        rec, ex.recording = ex.recording, False
        hq = ex.o.get('hq', 8000)
        self.hist = None
        try:
            self.alive = self.run_houdini(self.cands, None, [], [], lambda s: [], ex.o['houdini_rounds'], hq)
            # second pass: history functions of the loop-carried values, and invariants that need them
            H = self.havoc_again()
            self.assume_cands(H, self.alive, self.k)
            back, exits = self.body(H)
            if not back:
                return
            self.hist = h = Hist(self, H, back)
            names = {id(p) for n, p in self.alive}
            cands = [c for c in self.cands if id(c[1]) not in names and c[0] not in ('pair<=', 'pair>=', 'pair-diff')]
            cands += self.hist_cands(h)
            try:
                cands += self.array_cands(H, back, h)
            except Unsupported:
                pass
            if cands:
                more = self.run_houdini(cands, self.alive, h.init(), h.header(self.k), h.back, ex.o['houdini_rounds'], ex.o.get('hq2', 4000))
                self.alive = self.alive + more
        finally:
            ex.recording = rec
            need = sum(1 for lv in self.vars.values() if lv.es and lv.es > 1 and lv.step is None)
            if sum(1 for nm, p in self.alive if nm == 'position range') < need:
                raise Unsupported('a loop position is not provably within range')

    # ---- arrays: what is written where
    def writes(self, arr, base, cond, out, n=0):
        """element writes between base and arr: (condition, index, value)"""
        if arr is base or n > 60:
            return arr is base
        if isinstance(arr, AStore):
            ok = self.writes(arr.base, base, cond, out, n + 1)
            out.append((cond, arr.i, arr.v))
            return ok
        if isinstance(arr, AOver):
            ok = self.writes(arr.base, base, cond, out, n + 1)
            for i, v in arr.d.items():
                out.append((cond, i, v))
            return ok
        if isinstance(arr, AIte):
            a = self.writes(arr.a, base, And(cond, arr.c), out, n + 1)
            b = self.writes(arr.b, base, And(cond, Not(arr.c)), out, n + 1)
            return a and b
        if isinstance(arr, ACopy):
            ok = self.writes(arr.base, base, cond, out, n + 1)
            out.append((cond, arr.d, arr))
            return ok
        if type(arr).__name__ == 'AView':
            return self.writes(arr.arr, base, cond, out, n + 1)
        return False

    def array_cands(self, H, back, hist):
        """frame and write-log invariants of the arrays the loop writes.  hist None: only closed forms in k"""
        ex = self.ex
        out = []
        if len(back) > 4:
            return out
        n0 = self.h_fresh_limit()
        for b in self.arrs:
            if b not in H.mem or b not in self.S0.mem:
                continue
            Ha = H.mem[b].arr
            try:
                A0 = ex.arr_of(self.S0.copy(), b, Ha.w // 8)
            except Unsupported:
                continue
            if hist is None:
                out += self.shift_cands(b, Ha, A0, back, n0)
            ws = []
            good = True
            for s in back:
                a = s.mem[b].arr
                lst = []
                good &= self.writes(a, Ha, True, lst)
                suffix = And(*[c for c in s.pc[len(H.pc):] if not isinstance(c, QA)])
                ws += [(And(suffix, c), i, v) for c, i, v in lst]
                ids = set()
                for c, i, v in lst:
                    ib = bv(i, 64)
                    if c is not True and ib.get_id() not in ids and len(ids) < 4:
                        ids.add(ib.get_id())
                        self._keep.append(ib)
                        ws.append((suffix, i, a.read(i)))
            if not good or not ws or len(ws) > 40:
                continue
            seen = set()
            nf = 0
            cursors = []
            for c, i, v in ws:
                ib = bv(i, 64)
                if ib.get_id() in seen:
                    continue
                seen.add(ib.get_id())
                self._keep.append(ib)
                if not self.header_only(ib, n0, False):
                    continue
                if nf < 3 and hist is None:
                    nf += 1
                    cursors.append(ib)
                    out += self.frame_cands(b, Ha, A0, ib)
            if len(cursors) == 2:
                # two cursors moving towards each other: everything between them is untouched
                for p, q in (cursors, cursors[::-1]):
                    def between(s, kv, b=b, p=p, q=q, w=Ha.w, A0=A0):
                        A = self.cur_arr(s, b, w)
                        lo, hi = self.subst_state(p, s, kv), self.subst_state(q, s, kv)
                        return QA(lo, add(hi, 1), lambda j: eq(A.read(j), A0.read(j), w), And(sle(0, lo), sle(hi, 1 << 40)), 'unchanged between')
                    out.append(('array unchanged between the two cursors', between))
            for c, i, v in ws:
                if isinstance(v, ACopy):
                    continue
                t = self.norm_log(H, Ha, A0, c, i, v, hist, n0)
                if t is not None:
                    out.append(self.log_cand(b, t, hist))
            # coupling with the result of an earlier loop
            if hist is not None:
                i0 = bv(ws[0][1], 64)
                if self.header_only(i0, n0, False):
                    for b2, blk in list(self.S0.mem.items())[::-1]:
                        if b2 == b or blk.arr is None or blk.arr.w != Ha.w or b2 in self.arrs:
                            continue
                        if not self.from_loop(blk.arr):
                            continue
                        out.append(self.couple_cand(b, blk.arr, i0))
                        if len(out) > 60:
                            break
        return out

    def shift_shape(self, a, Ha):
        """one element inserted at / n elements erased from a position of Ha"""
        i = v = None
        if isinstance(a, AStore):
            i, v, a = a.i, a.v, a.base
        elif isinstance(a, AOver) and len(a.d) == 1:
            (i, v), a = list(a.d.items())[0], a.base
        if not isinstance(a, ACopy) or a.d != 0 or a.s != 0 or a.src is not Ha or type(a.base).__name__ != 'ASlice' or a.base.src is not Ha:
            return None
        d = a.base.s
        if v is not None:
            return ('ins', a.n, v, d) if d == mask(64) and same(simp(bv(i, 64)), simp(bv(a.n, 64))) else None
        return ('del', a.n, None, d) if isinstance(d, int) else None

    def shift_cands(self, b, Ha, A0, back, n0):
        """sequences built by inserting one element, or erasing elements, per iteration"""
        sh = [self.shift_shape(s.mem[b].arr, Ha) for s in back]
        if not sh or None in sh or len({(x[0], str(x[3])) for x in sh}) > 1:
            return []
        kind, i, v, d = sh[0]
        i = bv(i, 64)
        if not self.header_only(i, n0, False) or any(not simp(bv(x[1], 64)).eq(simp(i)) if is_sym(simp(i)) else not same(simp(bv(x[1], 64)), simp(i)) for x in sh):
            return []
        w, k, out, big = Ha.w, self.k, [], 1 << 40
        p0 = self.subst_state(i, self.S0, 0)
        cur = lambda s: self.cur_arr(s, b, w)
        out.append(('elements before the position are untouched', lambda s, kv: QA(0, p0, lambda j: eq(cur(s).read(j), A0.read(j), w), sle(0, p0), 'before')))
        if kind == 'del':
            out.append(('elements behind the position move down', lambda s, kv: QA(p0, sub(big, mul(kv, d)), lambda j: eq(cur(s).read(j), A0.read(add(j, mul(kv, d))), w), And(sle(p0, 1 << 30), sle(0, p0), ule(kv, 1 << 30)), 'behind')))
            return out
        out.append(('elements behind the position move up', lambda s, kv: QA(add(p0, kv), big, lambda j: eq(cur(s).read(j), A0.read(sub(j, kv)), w), True, 'behind')))
        vb = bv(v, w)
        if all(same(bv(x[2], w), vb) or bv(x[2], w).eq(vb) for x in sh) and self.header_only(vb, n0, False):
            at = lambda t: z3.substitute(vb, (k, bv(t, 64)))
            out.append(('inserted elements are in order', lambda s, kv: QA(p0, add(p0, kv), lambda j: eq(cur(s).read(j), at(sub(j, p0)), w), True, 'inserted')))
            out.append(('inserted elements are in reverse order', lambda s, kv: QA(p0, add(p0, kv), lambda j: eq(cur(s).read(j), at(sub(sub(add(p0, kv), 1), j)), w), True, 'inserted')))
        return out

    def from_loop(self, arr, n=0):
        if n > 20:
            return False
        if isinstance(arr, ABase):
            return arr.name.startswith('lp_')
        for x in ('base', 'a', 'b', 'src'):
            if hasattr(arr, x) and isinstance(getattr(arr, x), Arr) and self.from_loop(getattr(arr, x), n + 1):
                return True
        return False

    def header_only(self, e, n0, arrays_ok):
        """only symbols that exist at the header"""
        st, seen = [e], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm:
                    try:
                        if int(nm.rsplit('!', 1)[1]) > n0:
                            return False
                    except ValueError:
                        pass
                if not arrays_ok and any(a.name == nm for a in self.loop_arrays()):
                    return False
            st.extend(x.children())
        return True

    def loop_arrays(self):
        return [self.H.mem[b].arr for b in self.arrs if b in self.H.mem and isinstance(self.H.mem[b].arr, ABase)]

    def subst_state(self, t, s, kval):
        """the header term t in state s after kval iterations"""
        subs = [(self.k, bv(kval, 64))]
        for key, lv in self.vars.items():
            if lv.sym is None or lv.step is not None or lv.kind == 'ghost' or not is_sym(lv.sym):
                continue
            v = self.val_of(s, key)
            if v is UNDEF:
                v = self.ex.fresh('undef', lv.sym.size())
            subs.append((lv.sym, bv(self.num(v, lv.sym.size(), lv), lv.sym.size())))
        return z3.substitute(t, *subs)

    def cur_arr(self, s, b, w):
        return self.ex.arr_of(s, b, w // 8) if s is not self.S0 else self.ex.arr_of(s.copy(), b, w // 8)

    def frame_cands(self, b, Ha, A0, i):
        w = Ha.w
        at0 = self.subst_state(i, self.S0, 0)
        big = 1 << 62

        def below0(s, k):
            A = self.cur_arr(s, b, w)
            return QA(0, at0, lambda j: eq(A.read(j), A0.read(j), w), slt(0, at0), 'unchanged below')

        def above(s, k):
            A = self.cur_arr(s, b, w)
            p = self.subst_state(i, s, k)
            return QA(p, big, lambda j: eq(A.read(j), A0.read(j), w), sle(0, p), 'unchanged above')

        def above0(s, k):
            A = self.cur_arr(s, b, w)
            return QA(add(at0, 1), big, lambda j: eq(A.read(j), A0.read(j), w), sle(mask(64), at0), 'unchanged above start')

        def below(s, k):
            A = self.cur_arr(s, b, w)
            p = self.subst_state(i, s, k)
            return QA(0, add(p, 1), lambda j: eq(A.read(j), A0.read(j), w), sle(0, p), 'unchanged below cursor')
        return [('array unchanged below the first write', below0), ('array unchanged from the cursor on', above),
                ('array unchanged above the first write', above0), ('array unchanged up to the cursor', below)]

    def norm_log(self, H, Ha, A0, c, i, v, hist, n0):
        """(cond, index, value) over k (and history functions), reads of the written array turned into reads of the entry array"""
        w = Ha.w
        t = [bl(c), bv(i, 64), bv(v, w)]
        # reads of the array under construction
        subs = []
        for e in self.selects_of(t, Ha):
            subs.append((e, bv(A0.read(e.arg(1)), w)))
        if subs:
            t = [z3.substitute(x, *subs) for x in t]
        cs = [x for x in (t[0].children() if z3.is_and(t[0]) else [t[0]]) if self.header_only(x, n0, False)]
        if not all(self.header_only(x, n0, False) for x in t[1:]):
            return None
        t = [bl(And(*cs))] + t[1:]
        if hist is None:
            hs = {lv.sym.get_id() for lv in self.vars.values() if lv.sym is not None and lv.step is None and is_sym(lv.sym)}
            cs = [x for x in cs if not self.uses_ids(x, hs)]
            if any(self.uses_ids(x, hs) for x in t[1:]):
                return None
            # a condition on history variables that was dropped makes the log stronger; Houdini decides
            t = [bl(And(*cs))] + t[1:]
        elif hist is not None:
            hs = {lv.sym.get_id() for lv in self.vars.values() if lv.sym is not None and lv.step is None and is_sym(lv.sym)}
            if not any(self.uses_ids(x, hs) for x in t):
                return None     # already tried without history
        return t

    def selects_of(self, ts, Ha):
        out, seen, st = [], set(), list(ts)
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_SELECT and isinstance(Ha, ABase) and x.arg(0).eq(Ha.a):
                out.append(x)
            st.extend(x.children())
        return out

    def uses_ids(self, e, ids):
        st, seen = [e], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in ids:
                return True
            st.extend(x.children())
        return False

    def log_cand(self, b, t, hist):
        c, i, v = t
        w = v.size()
        k = self.k

        def pred(s, kval):
            A = self.cur_arr(s, b, w)

            def at(x):
                if hist is None:
                    cc, ii, vv = [z3.substitute(y, (k, bv(x, 64))) for y in (c, i, v)]
                else:
                    cc, ii, vv = [hist.sigma(y, bv(x, 64)) for y in (c, i, v)]
                return Implies(cc, eq(A.read(simp(ii)), vv, w))
            return QA(0, kval, at, True, 'written values')
        return ('every element written so far has its computed value', pred)

    def couple_cand(self, b, other, i):
        w = other.w

        def pred(s, kval):
            A = self.cur_arr(s, b, w)
            p = self.subst_state(i, s, kval)
            return QA(0, p, lambda j: eq(A.read(j), other.read(j), w), sle(0, p), 'same as earlier result')
        return ('array agrees with the result of an earlier loop up to the cursor', pred)

    def hist_cands(self, h):
        out = []
        ex = self.ex
        for P in ex.hists[-6:]:
            if P.ctx is self or P is h:
                continue
            out.append(('no more iterations than an earlier loop', lambda s, kv, P=P: ule(kv, P.k)))
            for key, lv in self.vars.items():
                if lv.sym is None or lv.kind == 'ghost' or lv.step is not None:
                    continue
                for pkey, (f, w, pstep) in P.fun.items():
                    if w != lv.w:
                        continue

                    def pred(s, kv, key=key, f=f, w=w, lv=lv):
                        v = self.val_of(s, key)
                        if v is UNDEF:
                            return False
                        return eq(bv(self.num(v, w, lv), w), f(bv(kv, 64)), w)
                    out.append(('equals the value an earlier loop had', pred))
        # monotone cursors
        for key, lv in self.vars.items():
            if key in h.fun and lv.kind in ('int', 'ptr'):
                f, w, _ = h.fun[key]

                def mono(s, kv, f=f, w=w):
                    return QA(0, kv, lambda i: And(sle(f(bv(i, 64)), f(bv(add(i, 1), 64)), w), sle(f(bv(add(i, 1), 64)), f(bv(kv, 64)), w)), True, 'monotone')
                out.append(('never decreases', mono))
        return out

    def havoc_again(self):
        # reuse the symbols: same header state (candidates are expressed over its symbols)
        return self.H.copy()

    def finish(self):
        ex = self.ex
        if ex.o.get('trace') and os.environ.get('NVC_LOOPS') == ex.o.get('contract'):
            print('LOOP %.1f rec=%s %s %s %d' % (time.time() % 10000, ex.recording, self.frame_fn.dn[:60], [n for n, p in self.alive], len(self.S0.pc)), flush=True)
        H = self.H.copy()
        # k is the symbol of H
        for nm, pred in self.alive:
            c = pred(self.S0, 0)
            if c is not None and ex.recording:
                ex.obls.append(Obl('loop', 'invariant holds on entry: ' + nm, '%s' % self.frame_fn.dn[:120], True, 'unsat'))
        self.assume_cands(H, self.alive, self.k)
        if self.hist is not None:
            for c in self.hist.header(self.k):
                H.assume(c)
            ex.hists.append(self.hist)
        back, exits = self.body(H)
        for s in back:
            if ex.recording:
                for nm, pred in self.alive:
                    ex.obls.append(Obl('loop', 'invariant preserved: ' + nm, '%s' % self.frame_fn.dn[:120], True, 'unsat'))
        return exits


class Hist:
    """history functions of a loop: f_v(i) is the value of v at the start of iteration i.  They are defined by the
    execution itself, so  f_v(0) = entry value,  f_v(k) = current value  and, for every completed iteration i,
    'some path through the body was taken whose conditions hold of the values of iteration i and whose results are
    the values of iteration i+1'."""
    def __init__(self, ctx, H, back):
        self.ctx = ctx
        ex = ctx.ex
        ex.nhist += 1
        self.uid = ex.nhist
        self.k = ctx.k
        self.fun = {}
        self.n0 = ctx.h_fresh_limit()
        S = z3.BitVecSort(64)
        self.subs = []
        for n, (key, lv) in enumerate(ctx.vars.items()):
            if lv.sym is None or lv.kind == 'ghost' or lv.step is not None or not is_sym(lv.sym):
                continue
            f = z3.Function('h%d_%d!%d' % (self.uid, n, ex.nfresh), S, z3.BitVecSort(lv.w))
            self.fun[key] = (f, lv.w, None)
            self.subs.append((lv.sym, f))
        self.bodyfresh = {}
        arrs = {a.name for a in ctx.loop_arrays()}
        self.paths = []
        for s in back:
            conj = []
            for c in s.pc[len(H.pc):]:
                if isinstance(c, QA):
                    continue
                c = simp(c)
                if c is True:
                    continue
                stack = [bl(c)]
                while stack:
                    x = stack.pop()
                    if z3.is_and(x):
                        stack.extend(x.children())
                    elif self.usable(x, arrs):
                        conj.append(x)
            nxt = []
            for key, (f, w, _) in self.fun.items():
                v = ctx.val_of(s, key)
                if v is UNDEF:
                    continue
                t = bv(ctx.num(v, w, ctx.vars[key]), w)
                if self.usable(t, arrs):
                    nxt.append((f, t, w))
            self.paths.append((conj, nxt))

    def usable(self, e, arrs):
        st, seen = [e], set()
        found = {}
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm in arrs:
                    return False
                if '!' in nm:
                    try:
                        fresh = int(nm.rsplit('!', 1)[1]) > self.n0
                    except ValueError:
                        fresh = False
                    if fresh:
                        if x.num_args():
                            return False
                        found[nm] = x
            st.extend(x.children())
        for nm, x in found.items():
            if nm not in self.bodyfresh:
                self.bodyfresh[nm] = (x, z3.Function('F%d_%s' % (self.uid, nm), z3.BitVecSort(64), x.sort()))
        return True

    def sigma(self, t, i):
        subs = [(self.k, i)] + [(s, f(i)) for s, f in self.subs] + [(x, F(i)) for x, F in self.bodyfresh.values()]
        return z3.substitute(t, *subs)

    def at(self, i):
        i = bv(i, 64)
        i1 = bv(add(i, 1), 64)
        alts = []
        for conj, nxt in self.paths:
            alts.append(And(*[self.sigma(c, i) for c in conj], *[f(i1) == self.sigma(t, i) for f, t, w in nxt]))
        return Or(*alts)

    def init(self):
        out = []
        for key, (f, w, _) in self.fun.items():
            v = self.ctx.val_of(self.ctx.S0, key)
            if v is UNDEF:
                continue
            out.append(eq(f(z3.BitVecVal(0, 64)), bv(self.ctx.num(v, w, self.ctx.vars[key]), w), w))
        return [bl(x) for x in out if x is not True]

    def header(self, k):
        out = self.init()
        for key, (f, w, _) in self.fun.items():
            out.append(self.ctx.vars[key].sym == f(bv(k, 64)))
        inv = [pred(self.ctx.H, self.k) for nm, pred in self.ctx.alive if nm == 'moves-while']
        inv = [bl(c) for c in inv if is_sym(c)]
        if inv:
            # a proved invariant held at the start of every earlier iteration
            out.append(QA(0, k, lambda i: And(self.at(i), *[self.sigma(c, bv(i, 64)) for c in inv]), True, 'history'))
        else:
            out.append(QA(0, k, self.at, True, 'history'))
        return out

    def back(self, s):
        out = []
        k1 = bv(add(self.k, 1), 64)
        for key, (f, w, _) in self.fun.items():
            v = self.ctx.val_of(s, key)
            if v is UNDEF:
                continue
            out.append(f(k1) == bv(self.ctx.num(v, w, self.ctx.vars[key]), w))
        return out


def ex_overlap(blk, off, n):
    for o, (sz, v) in blk.cells.items():
        if o < off + n and off < o + sz:
            return True
    return False


def weaken(c):
    """a loop guard a<b suggests invariants a<=b, a<b, and their converses"""
    k = c.decl().kind() if z3.is_app(c) else None
    m = {z3.Z3_OP_SLT: ('s', 0, 1), z3.Z3_OP_SGT: ('s', 1, 0), z3.Z3_OP_SLEQ: ('s', 0, 1), z3.Z3_OP_SGEQ: ('s', 1, 0),
         z3.Z3_OP_ULT: ('u', 0, 1), z3.Z3_OP_UGT: ('u', 1, 0), z3.Z3_OP_ULEQ: ('u', 0, 1), z3.Z3_OP_UGEQ: ('u', 1, 0)}
    if k in m:
        s, i, j = m[k]
        a, b = c.arg(i), c.arg(j)
        w = a.size()
        one = z3.BitVecVal(1, w)
        if s == 's':
            return [('guard<=', a <= b), ('guard<', a < b), ('guard<=+1', a <= b + one), ('guard>=', a >= b), ('guard>=-1', a >= b - one), ('guard>', a > b)]
        return [('guard<=u', z3.ULE(a, b)), ('guard<u', z3.ULT(a, b)), ('guard>=u', z3.UGE(a, b)), ('guard>u', z3.UGT(a, b))]
    if k == z3.Z3_OP_EQ and isinstance(c.arg(0), z3.BitVecRef):
        a, b = c.arg(0), c.arg(1)
        return [('guard-s<=', a <= b), ('guard-s>=', a >= b), ('guard-u<=', z3.ULE(a, b)), ('guard-u>=', z3.UGE(a, b))]
    return []


def uses(ins):
    s = set()

    def ops(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int):
                s.add(o[1])
            else:
                for x in o:
                    if isinstance(x, list):
                        ops(x)
    for k in ('o', 'a', 'gep', 'callee', 'cl', 'in'):
        if k in ins:
            ops([ins[k]])
    return s


class _Unmerged:
    def __repr__(self):
        return 'unmerged'


UNMERGED = _Unmerged()


class MergeInts(Unsupported):
    pass


class Throw:
    def __init__(self, tname, ptr=None):
        self.tname, self.ptr = tname, ptr


class Stop:
    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info


class Unwind:
    pass
