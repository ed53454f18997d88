#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   -- decides one property by proving its contracts on /repo's current source.
Exit 0: every obligation discharged (known findings excluded and reported).  Exit 1: VIOLATION line."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build

CONTRACTS = os.path.join(ROOT, 'contracts')
TRUST = ['clang-18 front end and the sroa pass (C++ -> LLVM IR of the same source text, -fwrapv -O1 -disable-llvm-passes)',
         'nvc/export.cpp, nvc/exec.py (symbolic execution, obligation generation, loop-invariant cuts)',
         'z3 / cvc5 (quantifier-free bit-vectors and arrays; quantified facts are instantiated by nvc)']
ASSUME = ['allocation succeeds', 'signed arithmetic wraps as the shipped build does (two\'s complement), shifts mask as x86 does',
          'partial correctness: termination is not proved (except where loops unroll completely)',
          'an uninitialised read yields an arbitrary value', 'calls are sequential (mutex operations have no effect)',
          'std containers never move the block that holds their elements as far as the code under contract can observe',
          'exception message texts are not modelled', 'libstdc++ and libc functions meet the contracts in nvc/libspec.py (listed in coverage.trusted_base)']


def prove_prog(paths):
    from ir import Program
    return Program(paths)


def load_opts(prop):
    f = os.path.join(CONTRACTS, prop + '.py')
    if not os.path.exists(f):
        return {}
    g = {}
    exec(open(f).read(), g)
    return g['OPTS']


def load_known():
    """known_findings.txt:  finding: property=P id=ID contract=C input=<NAME=VALUE;...> text"""
    out = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding:'):
                w = l[len('finding:'):].split()
                d, txt = {}, []
                for x in w:
                    k = x.split('=', 1)
                    if len(k) == 2 and k[0] in ('property', 'id', 'contract', 'input') and k[0] not in d and not txt:
                        d[k[0]] = k[1]
                    else:
                        txt.append(x)
                d['text'] = ' '.join(txt)
                out.append(d)
    return out


class Native:
    """the same contracts compiled natively and linked with the library built from the current tree"""
    def __init__(self, work, prop, cpp):
        self.work, self.prop = work, prop
        drv = os.path.join(work, 'drv_%s.cpp' % prop)
        with open(drv, 'w') as f:
            f.write('#define NVC_NATIVE\n#include "%s"\n#include "%s"\n' % (cpp, os.path.join(HERE, 'native.cpp')))
        self.exe = {}
        self.err = None
        for san in (True, False):
            try:
                self.exe[san] = build.build_driver(work, drv, sanitize=san)
            except build.BuildError as e:
                self.err = str(e)

    def run(self, args, timeout, san=True):
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0'
        env['TZ'] = 'UTC'
        d = tempfile.mkdtemp(dir=self.work)
        try:
            r = subprocess.run(['bash', '-c', 'ulimit -c 0; exec "$@"', 'x', self.exe[san]] + args, capture_output=True, timeout=timeout, env=env, cwd=d)
            return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
        except subprocess.TimeoutExpired as e:
            return 124, (e.stdout or b'').decode('latin1'), ''
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def parse(rc, out, err):
        """-> (what, [(name, value)]) or None"""
        if 'FAIL ' not in out:
            if rc not in (0, 3, 124):
                return ('the run ended with code %s: %s' % (rc, err.strip().split('\n')[0][:200]), [])
            return None
        ls = out[out.index('FAIL '):].split('\n')
        ins = []
        for l in ls[1:]:
            if l == 'END':
                break
            if l.startswith('IN '):
                w = l.split(' ', 2)
                ins.append((w[1], w[2] if len(w) > 2 else ''))
        return ls[0][5:], ins

    def replay(self, contract, inputs, known=None):
        fd, p = tempfile.mkstemp(dir=self.work)
        with os.fdopen(fd, 'w') as f:
            for k, v in inputs:
                f.write('IN %s %s\n' % (k, v))
        for san in (True, False):
            if san not in self.exe:
                continue
            x = self.parse(*self.run(['replay', contract, p] + ([known] if known else []), 60, san))
            if x:
                return x[0], (x[1] or inputs)
        return None

    def search(self, contract, seed, secs, workers=8):
        """parallel boundary-biased search for an input on which the contract fails natively"""
        with cf.ThreadPoolExecutor(workers) as p:
            fs = []
            for w in range(workers):
                san = w % 2 == 0
                if san not in self.exe:
                    san = not san
                fs.append((san, p.submit(self.run, ['random', contract, str(seed + w * 1000003), str(secs)], secs + 40, san)))
            best, n = None, 0
            for san, f in fs:
                rc, out, err = f.result()
                x = self.parse(rc, out, err)
                if x is None and out.startswith('NONE'):
                    n += int(out.split()[1])
                if x and x[1]:
                    if best is None or sum(len(v) for _, v in x[1]) < sum(len(v) for _, v in best[1]):
                        best = x
        if best:
            r = self.replay(contract, best[1])
            if not r:
                best = None
        return best, n


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='nvc-%s-' % prop, dir=os.environ.get('NVC_TMP', '/tmp'))
    try:
        rc = check(prop, tier, seed, work, t0)
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        print(tb)
        rp = write_replay(prop, ['internal error of the checker on this source', tb])
        write_evidence(prop, tier, seed, t0, [], [], 1, {'internal_error': str(e)})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def write_replay(prop, lines):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.replay.txt')
    with open(p, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return p


def write_evidence(prop, tier, seed, t0, res, known, viol, extra):
    pf = [r for r in res if not r['bound']]
    bf = [r for r in res if r['bound']]

    def cnt(rs):
        return sum(len(r['obls']) for r in rs), sum(sum(1 for o in r['obls'] if o['ok']) for r in rs)
    n, d = cnt(pf)
    nb, db = cnt(bf)
    be = {}
    for r in pf:
        for o in r['obls']:
            if o['ok']:
                be[o['backend'] or '?'] = be.get(o['backend'] or '?', 0) + 1
    libs = sorted({x for r in res for x in r['lib']})
    fns = sorted({x for r in res for x in r['inlined']})
    ass = sorted({x for r in res for x in r['assumed']})
    cov = dict(obligations=n, discharged=d, checker_cmd='cd /verif && python3-vt nvc/check.py %s %s' % (prop, tier),
               trusted_base=TRUST + ['library contract: ' + x for x in libs],
               by_back_end=be, solver_seconds=round(sum(r.get('solver_secs', 0) for r in res), 2),
               queries=sum(r.get('queries', 0) for r in res),
               functions_verified=fns, function_contracts_used_at_calls=sorted({x for r in res for x in r.get('specs', ())}),
               contracts=[dict(name=r['name'], bounded=r['bound'], obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o['ok']),
                               paths=r['paths'], seconds=round(r['secs'], 2), error=r['error'], nonvacuous=r.get('live', False)) for r in res],
               bounded=dict(obligations=nb, discharged=db, note='bounded contracts are not counted as proved',
                            bounds={r['name']: r['bound'] for r in bf}))
    cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ASSUME + ass + ['known finding excluded: ' + k for k in known],
              wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def check(prop, tier, seed, work, t0):
    import prove
    opts = load_opts(prop)
    thorough = tier == 'thorough'
    cpp = os.path.join(CONTRACTS, prop + '.cpp')
    findings = [k for k in load_known() if k.get('property') == prop]
    kn = tuple(k['id'] for k in findings)
    opts.setdefault('*', {})['known'] = kn
    if thorough:
        for o in opts.values():
            if 'limit' in o:
                o['limit'] *= 4
    srcs = build.lib_sources()
    paths, err = build.build_ir(work, [cpp, os.path.join(HERE, 'model.cpp')] + srcs)
    errs = dict(err)
    res = []
    if cpp in errs:
        # lemmas name helper functions, which may change: without them the helpers' bodies are verified in place
        try:
            paths.insert(0, build.compile_tu(build.exporter(work), cpp, work, ['-DNVC_NO_LEMMAS']))
            print('note: a function named by a lemma has changed; checking without the lemmas')
            del errs[cpp]
        except build.BuildError as e:
            errs[cpp] = str(e)
    if cpp in errs:
        cfail = 'the contracts no longer compile against /repo:\n' + errs[cpp]
        print(cfail)
        rp = write_replay(prop, ['obligation: contracts compile against the current sources', cfail])
        write_evidence(prop, tier, seed, t0, [], kn, 1, {'compile_error': errs[cpp][-800:]})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        return 1
    for s in errs:
        print('note: %s does not compile with clang: %s' % (s, errs[s][:300]))
    tb = time.time()
    budget = opts['*'].get('budget', 420) * (4 if thorough else 1)
    nat = None
    found = None

    def native():
        nonlocal nat
        if nat is None:
            nat = Native(work, prop, cpp)
        return nat

    def on_fail(sofar, new):
        """stop early when a failed obligation is already confirmed on the real code"""
        nonlocal found
        if found or not native().exe:
            return bool(found)
        for r in new:
            for f in r['failed'][:4]:
                ins = f.get('inputs')
                if ins and all(v is not None for v in ins.values()):
                    x = nat.replay(r['name'], list(ins.items()))
                    if x:
                        found = (r, x, 'solver model of obligation "%s" replayed on the real code' % f['name'])
                        break
            if not found and not r.get('lemma'):
                x, n = nat.search(r['name'], seed, 3)
                if x:
                    found = (r, x, 'search around the failed obligation')
            if found and r.get('lemma'):
                found = None            # a helper may change; only a contract of the property decides
            if found:
                return True
            if r.get('lemma'):
                for c in prove.contract_names(prove_prog(paths), prop):
                    if c[0].startswith('nvcL') or found:
                        continue
                    x, n = nat.search(c[1], seed, 1.5)
                    if x:
                        found = (dict(name=c[1], failed=[], error='', obls=[]), x, 'search after the failed obligation of ' + r['name'])
                if found:
                    return True
        return False
    res, stopped, gone = prove.prove(paths, prop, opts, budget, on_fail=on_fail)
    for g in gone:
        print('note: lemma %s does not hold of this source; its callers were checked against the body of the function instead' % g['name'])
    print('%s: %d contracts, %d obligations, %d discharged; build %.1fs, proof %.1fs' % (
        prop, len(res), sum(len(r['obls']) for r in res), sum(sum(1 for o in r['obls'] if o['ok']) for r in res), tb - t0, time.time() - tb))
    bad = [r for r in res if (r['error'] or r['failed'])]
    if stopped and found and not any(r['name'] == found[0]['name'] for r in bad):
        bad.append(found[0])
    if not res:
        bad = [dict(name='(none)', failed=[], error='no contracts found', obls=[])]
    for r in bad:
        print('contract %s: %s' % (r['name'], r['error'] or '%d obligations fail' % len(r['failed'])))
        for f in r['failed'][:4]:
            print('   failed obligation [%s] %s at %s: %s' % (f['kind'], f['name'], f['loc'], f['why']))
    for k in findings:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['text']))
    used = {u for r in res for u in r.get('known_used', ())}
    extra = {}
    cross = None
    if gone:
        extra['lemmas_not_available'] = [g['name'] for g in gone]
    if thorough and not bad:
        nat = native()
        tot = 0
        for r in res:
            if not nat.exe:
                break
            x, n = nat.search(r['name'], seed, 15)
            tot += n
            if x:
                cross = (r, x)
                break
        extra['native_cross_validation'] = dict(executions=tot, note='the contracts executed natively on random inputs against the shipped build; checks the library contracts, decides nothing')
        rep = []
        for k in findings:
            if k.get('contract') and 'input' in k and nat.exe:
                ins = [tuple(p.split('=', 1)) for p in k['input'].split(';') if '=' in p]
                rep.append((k['id'], bool(nat.replay(k['contract'], ins, k['id']))))
        extra['known_findings_replayed'] = rep
    if not bad and not cross:
        write_evidence(prop, tier, seed, t0, res, kn, 0, extra)
        return 0
    if cross:
        r, x = cross
        lines = ['contract %s holds in the proof but fails natively: %s' % (r['name'], x[0])] + ['IN %s %s' % i for i in x[1]]
        rp = write_replay(prop, lines)
        write_evidence(prop, tier, seed, t0, res, kn, 1, extra)
        print('\n'.join(lines))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    # ---- a failed obligation: look for the input that shows it on the real code
    lines = ['property %s: failed obligations' % prop]
    for r in bad:
        lines.append('contract %s: %s' % (r['name'], r['error'] or ''))
        for f in r['failed'][:20]:
            lines.append('  obligation [%s] %s at %s: %s; model inputs %s' % (f['kind'], f['name'], f['loc'], f['why'], f.get('inputs')))
    nat = native()
    if nat.exe and res and not found:
        limit = t0 + (820 if not thorough else 3000)
        for r in bad:
            if found or time.time() > limit - 60:
                break
            for f in r['failed']:
                ins = f.get('inputs')
                if ins and all(v is not None for v in ins.values()):
                    x = nat.replay(r['name'], list(ins.items()))
                    if x:
                        found = (r, x, 'solver model of obligation "%s" replayed on the real code' % f['name'])
                        break
        order = sorted(bad, key=lambda r: 0 if r['failed'] else 1)
        if not found:
            for rnd, secs in ((0, 4), (1, 15), (2, 40), (3, 90)):
                for r in order:
                    left = limit - time.time() - 50
                    if found or left < secs:
                        break
                    x, n = nat.search(r['name'], seed + 7777777 * rnd, secs)
                    if x:
                        found = (r, x, 'search around the failed obligation')
                if found:
                    break
    elif nat.err:
        lines.append('native build failed: ' + nat.err[:500])
    if found:
        r, x, how = found
        lines += ['', 'FAILING INPUT (%s)' % how, 'contract %s fails on the real code: %s' % (r['name'], x[0])] + ['IN %s %s' % i for i in x[1]]
        print('\n'.join(lines[-3 - len(x[1]):]))
    rp = write_replay(prop, lines)
    write_evidence(prop, tier, seed, t0, res, kn, 1, extra)
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if found else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    main()
