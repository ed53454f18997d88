"""Proof-mode meaning of the contract language (nvc.hpp)."""
import z3
from val import *
from exec import QA, Throw, Stop
from libspec import lib, reg, regx, concrete_cstr, s_set, s_get, cstr, str_eq, branch

STRMAX = 1 << 30      # strings and arrays drawn by contracts have fewer than 2^30 elements


def draw(ex, st, p, kind, mk):
    name = concrete_cstr(ex, st, p)
    if name is None:
        raise Unsupported('input name is not a literal')
    seq = st.ghost.get('draws', ())
    k = sum(1 for n, _ in seq if n.split('#')[0] == name)
    if k:
        name = '%s#%d' % (name, k + 1)
    st.ghost['draws'] = seq + ((name, kind),)
    if name not in ex.inputs:
        ex.inputs[name] = (kind, mk(name))
    return ex.inputs[name][1]


def _int(w, kind):
    def h(ex, st, a, ins):
        return draw(ex, st, a[0], kind, lambda n: z3.BitVec('in.' + n, w))
    return h


for nm, w in (('schar', 8), ('char', 8), ('byte', 8), ('short', 16), ('int', 32), ('long', 64)):
    lib.exact['nvc_' + nm] = _int(w, 'i%d' % w)


@reg('nvc_bool')
def _bool(ex, st, a, ins):
    return draw(ex, st, a[0], 'bool', lambda n: z3.Bool('in.' + n))


@reg('nvc_float')
def _float(ex, st, a, ins):
    return Flt(32, draw(ex, st, a[0], 'i32', lambda n: z3.BitVec('in.' + n, 32)))


@reg('nvc_double')
def _double(ex, st, a, ins):
    return Flt(64, draw(ex, st, a[0], 'i64', lambda n: z3.BitVec('in.' + n, 64)))


def _str(nz):
    def h(ex, st, a, ins):
        arr, n = draw(ex, st, a[1], 'str', lambda n: (ABase('in.' + n, 8), z3.ZeroExt(34, z3.BitVec('in.' + n + '.len', 30))))
        st.assume(ult(n, STRMAX))
        from libspec import AView
        s_set(ex, st, a[0], AView(arr, n), n)
        if nz:
            st.assume(QA(0, n, lambda i: ne(arr.read(i), 0, 8), True, 'text'))
            st.ghost[('nonzero', arr.name)] = (arr, n)
        ex.assumed_notes.add('strings and arrays have fewer than 2^30 elements')
    return h


lib.exact['nvc_string'] = _str(False)
lib.exact['nvc_text'] = _str(True)


def _vec(w):
    def h(ex, st, a, ins):
        from libspec import v_set
        arr, n = draw(ex, st, a[1], 'v%d' % w, lambda n: (ABase('in.' + n, w), z3.ZeroExt(34, z3.BitVec('in.' + n + '.len', 30))))
        st.assume(ult(n, STRMAX))
        v_set(ex, st, a[0], arr, n, w // 8)
        ex.assumed_notes.add('strings and arrays have fewer than 2^30 elements')
    return h


lib.exact['nvc_ints'] = _vec(32)
lib.exact['nvc_longs'] = _vec(64)
lib.exact['nvc_bytes'] = _vec(8)
lib.exact['nvc_chars'] = _vec(8)


@reg('nvc_assume')
def _assume(ex, st, a, ins):
    c = a[0]
    if not ex.feasible(st.pc, c):
        return Stop('infeasible')
    st.assume(c)


def _any(w):
    def h(ex, st, a, ins):
        return ex.fresh('any', w) if w > 1 else ex.fresh_bool('any')
    return h


lib.exact['nvc_any_int'] = _any(32)
lib.exact['nvc_any_long'] = _any(64)
lib.exact['nvc_any_bool'] = _any(1)


@reg('nvc_opaque')
def _opaque(ex, st, a, ins):
    """some fixed function of the argument"""
    return z3.Function('opaque', z3.BitVecSort(64), z3.BitVecSort(32))(bv(a[0], 64))


@reg('nvc_assume_forall')
def _assume_forall(ex, st, a, ins):
    """quantified assumption: the condition is the result of executing the given (pure) function on an arbitrary index"""
    lo, hi, f, ctx = a
    from exec import Frame, QA
    mod = [m for m in ex.prog.mods if m.path == f.b[1]][0]
    fn = ex.prog.find_func(f.b[2], mod)
    n0 = ex.nfresh
    k = ex.fresh('all', 64)
    s = st.copy()
    g = Frame(fn)
    g.env[0], g.env[1] = ctx, k
    s.frames = [g]
    s.pc = [And(sle(lo, k), slt(k, hi))] + [c for c in s.pc]
    base = len(s.pc)
    rec, ex.recording = ex.recording, False
    hist = ex.hists
    ex.hists = list(hist)
    try:
        outs = ex.run([s])
    finally:
        ex.recording = rec
        ex.hists = hist
    conds = []
    for o in outs:
        if o.out is None or o.out[0] != 'ret':
            raise Unsupported('quantified condition does not return')
        if any(isinstance(c, QA) for c in o.pc[base:]):
            raise Unsupported('quantified condition with a loop')
        v = o.out[1]
        conds.append(Implies(And(*o.pc[base:]), v if isinstance(v, (bool, z3.BoolRef)) else ne(v, 0, 8)))
    c = bl(And(*conds))
    todo, seen = [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name() and not x.eq(k):
            try:
                if int(x.decl().name().rsplit('!', 1)[1]) > n0:
                    raise Unsupported('quantified condition is not a function of the index')
            except ValueError:
                pass
        todo.extend(x.children())
    st.assume(QA(lo, hi, lambda t: z3.substitute(c, (k, bv(t, 64))), sle(lo, hi), 'assumed for all'))


@reg('nvc_known')
def _known(ex, st, a, ins):
    i = concrete_cstr(ex, st, a[0])
    if i in ex.known:
        ex.known_used.add(i)
        return _assume(ex, st, [Not(a[1])], ins)


@reg('nvc_ensure')
def _ensure(ex, st, a, ins):
    nm = concrete_cstr(ex, st, a[0])
    ex.oblige(st, 'post', nm, a[1], assume=True)


@reg('nvc_reach')
def _reach(ex, st, a, ins):
    nm = concrete_cstr(ex, st, a[0])
    if ex.recording:
        ex.reached[nm] = ex.reached.get(nm, False) or ex.sat(st.pc, [], 20000) != 'unsat'


@reg('nvc_pick')
def _pick(ex, st, a, ins):
    lo, hi = a
    rl, rh = interval(lo, 64), interval(hi, 64)
    if rl and rh and rl[0] >= 0 and rh[1] <= 1 << 62:
        w = max(rh[1].bit_length(), 1)
        i = z3.ZeroExt(64 - w, ex.fresh('pick', w))
    else:
        i = ex.fresh('pick', 64)
    c = And(sle(lo, i), slt(i, hi))
    if not ex.feasible(st.pc, c):
        return Stop('infeasible')
    st.assume(c)
    ex.extra_terms.append(i)
    return i


@reg('nvc_forall_end')
def _fend(ex, st, a, ins):
    return Stop('dropped')


@reg('nvc_eqrange')
def _eqrange(ex, st, a, ins):
    p, q, n = a
    from libspec import eqrange
    A = ex.to_arr(st, p.b, 1).arr
    B = ex.to_arr(st, q.b, 1).arr
    if A.w > 8:
        es = A.w // 8
        po, qo, n = [ex.div_off(st, simp(x) if is_sym(x) else x, es) for x in (p.o, q.o, n)]
        if B.w != A.w or po is None or qo is None or n is None:
            raise Unsupported('comparison of ranges of different elements')
        return eqrange(ex, st, A, po, B, qo, n)
    return eqrange(ex, st, A, p.o, B, q.o, n)


@reg('nvc_cases')
def _cases(ex, st, a, ins):
    """split the proof into one path per value of the expression; the paths are not merged again"""
    v, lo, hi = a
    k = ('case', len([x for x in st.ghost if isinstance(x, tuple) and x[0] == 'case']))
    ex.oblige(st, 'split', 'case split covers every value', And(sle(lo, v), slt(v, hi)))
    outs = []
    for i in range(sgn(lo, 64), sgn(hi, 64)):
        c = eq(v, i & mask(64), 64)
        if not ex.feasible(st.pc, c):
            continue
        s = st.copy()
        s.assume(c)
        s.ghost[k] = i
        outs.append((s, i & mask(64)))
    return outs
