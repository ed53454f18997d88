"""Proves the contracts of one property: compile -> export -> symbolic execution -> obligations -> solver."""
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build


def contract_names(prog, prop):
    out = []
    for m in prog.mods:
        for n in m.flines:
            g = re.match(r'nvc(B\d+|L)?__(\w+?)__(\w+)$', n)
            if g and g.group(2) == prop:
                out.append((n, g.group(3), int(g.group(1)[1:]) if g.group(1) and g.group(1) != 'L' else None))
    return out


def run_contract(paths, cname, bound, opts, deadline, small=True):
    """-> result dict (picklable)"""
    import z3
    from ir import Program
    from exec import Exec, State, Frame, Budget, LoopNeedsInvariant
    from val import Unsupported
    import libspec
    import spec
    t0 = time.time()
    sys.setrecursionlimit(20000)
    prog = Program(paths)
    o = dict(opts.get('*', {}))
    short = cname.split('__')[-1]
    o.update(opts.get(short, {}))
    o['deadline'] = deadline
    if bound:
        o['bounded'] = max(bound, 1)
    known = o.pop('known', ())
    ex = Exec(prog, libspec.lib, o)
    ex.known = set(known)
    res = dict(name=short, bound=bound, obls=[], failed=[], error=None, paths=0, inputs={}, models=[])
    try:
        fn = prog.find_func(cname)
        st = State()
        st.frames.append(Frame(fn))
        outs = [st]
        outs = ex.run([st])
        live = 0
        for s in outs:
            k = s.out[0] if s.out else None
            if k in ('infeasible', 'dropped'):
                continue
            res['paths'] += 1
            if k == 'ret':
                if not live:
                    live = ex.sat(s.pc, [], 3000) != 'unsat'
                continue
            # every other way to end is an obligation that fails unless the path is infeasible
            nm = {'throw': 'no exception escapes the contract', 'trap': 'no trap', 'terminate': 'no terminate',
                  'unreachable': 'unreachable code is not reached'}.get(k, k)
            if k == 'throw':
                nm += ' (%s)' % (s.exc[1] if s.exc else '?')
            ex.oblige(s, 'post', nm, False)
        res['live'] = bool(live)
        if not live and not any(not ob.ok for ob in ex.obls):
            res['error'] = 'vacuous: no execution satisfies the preconditions'
    except Unsupported as e:
        res['error'] = 'unsupported: ' + str(e)
        if os.environ.get('NVC_TB'):
            traceback.print_exc()
    except Budget as e:
        res['error'] = 'budget: ' + str(e)
    except LoopNeedsInvariant:
        res['error'] = 'loop needs an invariant'
    except RecursionError:
        res['error'] = 'recursion limit'
    except MemoryError:
        res['error'] = 'out of memory'
    except Exception as e:
        res['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        if os.environ.get('NVC_TB'):
            traceback.print_exc()
        res['tb'] = traceback.format_exc()[-1500:]
    for ob in ex.obls:
        d = dict(kind=ob.kind, name=ob.name, loc=ob.loc, ok=ob.ok, why=ob.why, secs=round(ob.secs, 3), backend=ob.backend)
        res['obls'].append(d)
        if not ob.ok:
            if ob.model and ob.model[0] is not None:
                d['inputs'] = model_inputs(ex, ob.model[0], ob.model[1])
            res['failed'].append(d)
    res['secs'] = time.time() - t0
    res['solver_secs'] = ex.solver_time
    res['queries'] = ex.nqueries
    res['lib'] = sorted(ex.used_lib)
    res['specs'] = sorted(ex.used_specs)
    res['cname'] = cname
    res['inlined'] = sorted(x for x in ex.inlined)
    res['assumed'] = sorted(ex.assumed_notes)
    res['truncated'] = ex.truncated
    res['known_used'] = sorted(ex.known_used)
    return res


def model_inputs(ex, m, st):
    import z3
    from val import sgn
    r = {}
    for name, (kind, v) in ex.inputs.items():
        try:
            if kind == 'bool':
                r[name] = '1' if z3.is_true(m.eval(v, model_completion=True)) else '0'
            elif kind[0] == 'i':
                w = int(kind[1:])
                r[name] = str(sgn(m.eval(v, model_completion=True).as_long(), w))
            else:
                arr, n = v
                n = m.eval(n, model_completion=True).as_long()
                if n > 4096:
                    r[name] = None
                    continue
                xs = [m.eval(z3.Select(arr.a, z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(n)]
                r[name] = ''.join('%02x' % x for x in xs) if kind == 'str' else ''.join('%d,' % sgn(x, int(kind[1:])) for x in xs)
        except Exception:
            r[name] = None
    return r


def _worker(args):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    return run_contract(*args)


def _dead(n, s, b, why):
    return dict(name=s, cname=n, bound=b, obls=[], failed=[], error=why, paths=0, secs=0, solver_secs=0, lib=[], inlined=[], assumed=[], queries=0, specs=[])


def prove(paths, prop, opts, budget, jobs=8, only=None, on_fail=None):
    """Runs every contract and lemma.  A lemma states what a helper function does; callers are then checked against it.
    When a lemma no longer holds, its callers are checked against the helper's body instead.
    on_fail(results so far, new failures) is asked after every failure whether to stop early."""
    from ir import Program
    prog = Program(paths)
    names = [x for x in contract_names(prog, prop) if only is None or x[1] in only]
    present = {x[1] for x in names}
    del prog
    t0 = time.time()
    use = {k: v for k, v in opts.get('use', {}).items() if v[1] in present}
    ctx = mp.get_context('spawn')
    res = {}
    stop = False

    def batch(todo, o, nproc, end):
        nonlocal stop
        with ctx.Pool(nproc, maxtasksperchild=1) as p:
            hs = []
            for n, s, b in todo:
                lim = o.get(s, {}).get('limit', o.get('*', {}).get('limit', budget))
                o2 = dict(o)
                o2['*'] = dict(o.get('*', {}), use=use, contract=s)
                hs.append((n, s, b, p.apply_async(_worker, ((paths, n, b, o2, min(time.time() + lim, end)),))))
            while hs and not stop:
                late = time.time() > end + 60
                rest, new = [], []
                for n, s, b, h in hs:
                    if h.ready() or late:
                        try:
                            r = h.get(timeout=0.1)
                        except mp.TimeoutError:
                            r = _dead(n, s, b, 'time limit')
                        except Exception as e:
                            r = _dead(n, s, b, 'worker died: %s' % e)
                        old = res.get(s)
                        if old and o['*'].get('patience') and not (not r['error'] and len(r['failed']) <= len(old['failed']) or old['error']):
                            r = old
                        elif old:
                            r['retried'] = True
                            r['solver_secs'] += old['solver_secs']
                        r['lemma'] = n.startswith('nvcL')
                        res[s] = r
                        if (r['failed'] or r['error']) and any('counterexample' in f['why'] for f in r['failed']):
                            new.append(r)
                    else:
                        rest.append((n, s, b, h))
                hs = rest
                if new and on_fail and on_fail(list(res.values()), new):
                    stop = True
                if hs and not stop:
                    time.sleep(0.2)
            p.terminate()

    def undecided():
        return [x for x in names if x[1] in res and (res[x[1]]['failed'] and all('unknown' in f['why'] for f in res[x[1]]['failed']) or (res[x[1]]['error'] or '').startswith('budget'))]
    order = {n: i for i, n in enumerate(opts.get('first', []))}
    todo = sorted(names, key=lambda x: (not x[0].startswith('nvcL'), order.get(x[1], 99)))
    gone = []
    for rnd in range(4):
        batch(todo, opts, jobs, t0 + budget)
        # obligations no solver decided in time: once more, with the machine to itself and longer limits
        again = undecided()
        if not stop and again and time.time() - t0 < budget and len(again) <= 4 and not opts.get('no_retry'):
            o2 = dict(opts)
            o2['*'] = dict(opts.get('*', {}), patience=6)
            batch(again, o2, 2, t0 + budget + 150)
        if stop:
            break
        broken = {k for k, v in use.items() if res.get(v[1]) is None or res[v[1]]['error'] or res[v[1]]['failed']}
        if not broken:
            break
        gone += sorted(use[k][1] for k in broken)
        for k in broken:
            use.pop(k)
        todo = [x for x in names if x[1] in res and set(res[x[1]].get('specs', ())) & broken and x[1] not in gone]
        if not todo:
            break
        for x in todo:
            res.pop(x[1])
    out = [r for r in res.values() if r['name'] not in gone]
    return out, stop, [res[g] for g in gone if g in res]
