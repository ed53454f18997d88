"""IR access: exported LLVM modules -> functions with CFG structure (weak topological order, loops, liveness)."""
import json


def tsize(t):
    if isinstance(t, str):
        if t[0] == 'i' and t[1:].isdigit():
            return (int(t[1:]) + 7) // 8
        return {'ptr': 8, 'float': 4, 'double': 8, 'void': 0, 'fp80': 16, 'opaque': 0}.get(t, 8)
    return t[1]


def iw(t):
    """bit width of an integer type, or None"""
    if isinstance(t, str) and t[0] == 'i' and t[1:].isdigit():
        return int(t[1:])
    return None


class Func:
    def __init__(self, d, mod):
        self.mod = mod
        self.name = d['n']
        self.dn = d['dn']
        self.args = d['args']
        self.ret = d['ret']
        self.va = d['va']
        self.blocks = d['blocks']
        self.nargs = len(self.args)
        self._prep()

    def vty(self, k):
        if not hasattr(self, '_vty'):
            self._vty = {i: a['t'] for i, a in enumerate(self.args)}
            for b in self.blocks:
                for ins in b:
                    self._vty[ins['i']] = ins['t']
        return self._vty.get(k)

    def key(self):
        return self.mod.path + '|' + self.name

    def succs(self, b):
        ins = self.blocks[b][-1]
        op = ins['op']
        if op == 'br':
            return list(ins['s'])
        if op == 'switch':
            return [ins['def']] + [c[1] for c in ins['cases']]
        if op == 'invoke':
            return [ins['nd'], ins['ud']]
        return []

    def _prep(self):
        n = len(self.blocks)
        self.succ = [list(dict.fromkeys(self.succs(b))) for b in range(n)]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ[b]:
                self.pred[s].append(b)
        # weak topological order by recursive SCC decomposition
        self.nest = {}      # block -> tuple of loop headers containing it (outermost first)
        self.order = {}     # block -> linear index
        self.loops = {}     # header -> set of blocks
        self._ctr = 0
        self._wto(set(range(n)), 0, ())

    def _sccs(self, nodes, entry, skip_header):
        """Tarjan, iterative; edges into skip_header are removed.  Returns SCCs in topological order."""
        index = {}
        low = {}
        onst = set()
        st = []
        res = []
        ctr = [0]

        def edges(v):
            return [s for s in self.succ[v] if s in nodes and s != skip_header]

        def visit(root):
            work = [(root, iter(edges(root)))]
            index[root] = low[root] = ctr[0]
            ctr[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = ctr[0]
                        ctr[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(edges(w))))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    res.append(comp)
        visit(entry)
        res.reverse()
        return res

    def _wto(self, nodes, entry, path, skip=None):
        for comp in self._sccs(nodes, entry, skip):
            selfloop = len(comp) == 1 and comp[0] in self.succ[comp[0]] and comp[0] != skip
            if len(comp) == 1 and not selfloop:
                b = comp[0]
                self.nest[b] = path
                self.order[b] = self._ctr
                self._ctr += 1
                continue
            cs = set(comp)
            heads = [b for b in comp if any(p not in cs for p in self.pred[b]) or b == entry]
            h = heads[0] if heads else comp[0]
            self.loops[h] = cs
            self.irreducible = len(heads) > 1
            self.order[h] = self._ctr
            self._ctr += 1
            self.nest[h] = path + (h,)
            rest = cs - {h}
            # process remaining nodes: several entries possible (successors of h)
            done = set()
            sub = self._sccs_multi(rest, [s for s in self.succ[h] if s in rest])
            for c2 in sub:
                self._wto_comp(c2, path + (h,))
                done |= set(c2)
            for b in rest - done:
                self.nest[b] = path + (h,)
                self.order[b] = self._ctr
                self._ctr += 1

    def _sccs_multi(self, nodes, entries):
        # virtual root -1
        save = self.succ
        succ = dict(enumerate(save))
        succ[-1] = entries
        self.succ = succ
        try:
            r = self._sccs(nodes | {-1}, -1, None)
        finally:
            self.succ = save
        return [c for c in r if c != [-1]]

    def _wto_comp(self, comp, path):
        selfloop = len(comp) == 1 and comp[0] in self.succ[comp[0]]
        if len(comp) == 1 and not selfloop:
            b = comp[0]
            self.nest[b] = path
            self.order[b] = self._ctr
            self._ctr += 1
            return
        cs = set(comp)
        heads = [b for b in comp if any(p not in cs for p in self.pred[b])]
        h = heads[0] if heads else comp[0]
        self.loops[h] = cs
        self.order[h] = self._ctr
        self._ctr += 1
        self.nest[h] = path + (h,)
        rest = cs - {h}
        done = set()
        for c2 in self._sccs_multi(rest, [s for s in self.succ[h] if s in rest]):
            self._wto_comp(c2, path + (h,))
            done |= set(c2)

    # ---- liveness (values live at block entry, before phis are evaluated: phi uses belong to the edge) ----
    def live_in(self):
        if hasattr(self, '_live'):
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phi_use = [dict() for _ in range(n)]   # block -> pred -> set

        def ops(o, out):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int):
                    out.add(o[1])
                else:
                    for x in o:
                        if isinstance(x, list):
                            ops(x, out)
        for b in range(n):
            for ins in self.blocks[b]:
                if ins['op'] == 'phi':
                    for v, p in ins['in']:
                        s = set()
                        ops(v, s)
                        ops([v], s)
                        phi_use[b].setdefault(p, set()).update(s)
                    deff[b].add(ins['i'])
                    continue
                s = set()
                for k in ('o', 'a', 'gep', 'callee', 'cl'):
                    if k in ins:
                        ops([ins[k]], s)
                use[b] |= (s - deff[b])
                deff[b].add(ins['i'])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                    out |= phi_use[s].get(b, set())
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        # after phis: phi defs of the block that are used are live too (state is merged after phi evaluation)
        self._live = live
        self._use = use
        return live

    def live_after_phis(self, b):
        self.live_in()
        r = set(self._live[b])
        for ins in self.blocks[b]:
            if ins['op'] == 'phi':
                r.add(ins['i'])
        return r


class Module:
    def __init__(self, path):
        self.path = path
        self.flines = {}
        self.glines = {}
        self.decls = {}
        self.aliases = {}
        self.funcs = {}
        self.globs = {}
        with open(path) as f:
            for line in f:
                k, n, d = line.rstrip('\n').split('\t', 2)
                if k == 'F':
                    self.flines[n] = d
                elif k == 'G':
                    self.glines[n] = d
                elif k == 'D':
                    self.decls[n] = d
                elif k == 'A':
                    self.aliases[n] = json.loads(d)

    def dn(self, n):
        d = self.flines.get(n) or self.decls.get(n)
        if d is None:
            return n
        i = d.index('"dn":"') + 6
        if n in self.decls:
            return json.loads(d)['dn']
        j = d.index('","local":', i)
        return json.loads('"' + d[i:j] + '"')

    def func(self, n):
        if n not in self.funcs:
            self.funcs[n] = Func(json.loads(self.flines[n]), self)
        return self.funcs[n]

    def glob(self, n):
        if n not in self.globs:
            self.globs[n] = json.loads(self.glines[n])
        return self.globs[n]


class Program:
    """A set of modules; names are resolved across modules for non-local symbols."""
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.fidx = {}
        self.gidx = {}
        self.dnidx = {}
        for m in self.mods:
            for n, d in m.flines.items():
                if '"local":1' not in d[:d.index('"args"')]:
                    self.fidx.setdefault(n, m)
            for n, d in m.glines.items():
                if '"local":1' not in d[:d.index('"size"')] and '"init"' in d:
                    self.gidx.setdefault(n, m)

    def find_func(self, n, mod=None):
        if mod is not None:
            if n in mod.flines:
                return mod.func(n)
            if n in mod.aliases:
                to = mod.aliases[n]['to']
                if to[0] == 'g':
                    return self.find_func(to[1], mod)
        m = self.fidx.get(n)
        if m is not None:
            return m.func(n)
        for m in self.mods:
            if n in m.aliases and m.aliases[n]['to'][0] == 'g':
                return self.find_func(m.aliases[n]['to'][1], m)
        return None

    def by_dn(self, dn):
        if not self.dnidx:
            for m in self.mods:
                for n in sorted(m.flines, key=lambda n: ('C2E' in n or 'D2E' in n or 'D0E' in n)):
                    self.dnidx.setdefault(m.dn(n), (n, m))
            import subprocess
            for m in self.mods:
                al = [n for n in m.aliases]
                if al:
                    out = subprocess.run(['c++filt'] + al, capture_output=True, text=True).stdout.split('\n')
                    for n, d in zip(al, out):
                        self.dnidx.setdefault(d, (n, m))
        r = self.dnidx.get(dn)
        if r is None:
            return None
        return self.find_func(r[0], r[1])

    def find_glob(self, n, mod=None):
        if mod is not None and n in mod.glines:
            g = mod.glob(n)
            if 'init' in g:
                return g, mod
        m = self.gidx.get(n)
        if m is not None:
            return m.glob(n), m
        if mod is not None and n in mod.glines:
            return mod.glob(n), mod
        for m in self.mods:
            if n in m.glines:
                return m.glob(n), m
        return None, None
