"""MIR abstract interpreter over the tree domain of cst.py (powerset of states, memoised calls)."""
import re
from cst import *
import cst as C
from grammar import is_leaf, proper, err

PANIC_PREFIX = ('core::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
                'std::panicking::', 'std::rt::', 'core::slice::index::slice_', 'core::str::slice_error_fail', 'alloc::alloc::handle_alloc_error',
                'core::cell::panic_', 'alloc::raw_vec::')
MAXSTATES = 3000
STICKYTOP = 3
NT = 'parsa_python::PyNodeType'
NTK = 'parsa_python::NonterminalType'
TTK = 'parsa_python::tokenizer::TerminalType'

class Stats:
    def __init__(self):
        self.fns = set()
        self.calls = 0
        self.states = 0
        self.obl = {}      # (fn, bb, kind) -> 'ok' | 'alarm' | 'undecided'
        self.alarm = {}    # (fn, bb, kind) -> (detail, stack)
        self.bailed = {}

class Interp:
    def __init__(self, crate, gr, extra=()):
        self.c = crate
        self.fns = crate.fns
        self.t = Tree(gr)
        self.gr = gr
        self.memo = {}
        self.inprog = {}
        self.stats = Stats()
        self.stack = []
        self.keep = False
        self.bounded = self.cut = False
        self.rng = None     # bounded: which paths are followed first
        self.maxd = 4
        self.depth = 0
        nt = crate.adts[NT]['v']
        self.ntvar = {v['n']: i for i, v in enumerate(nt)}
        self.ntdis = [v['d'] for v in nt]
        self.nk = [v['n'] for v in crate.adts[NTK]['v']]
        self.tk = [v['n'] for v in crate.adts[TTK]['v']]
        self.nkd = {v['n']: v['d'] for v in crate.adts[NTK]['v']}
        self.tkd = {v['n']: v['d'] for v in crate.adts[TTK]['v']}
        self.loops = {}
        self.shape = {}
        self.ixfield = next((i for i, x in enumerate(crate.adts.get('parsa_python::PyNode', {'v': [{'f': []}]})['v'][0]['f']) if x[0] == 'index'), None)
        self.models = build_models(self)
        self.total = 0
        self.by_impl = {}
        for f in crate.list:
            if f['itrait'] and f['name'] == 'next' and 'Iterator' in f['itrait']:
                self.by_impl.setdefault(strip(f['iself']), []).append(f['key'])

    # ---------- labels <-> node types
    def label_of(self, v):
        """value of type PyNodeType -> label matcher set (frozenset of labels) or None"""
        if v[0] != 'a' or v[1] != NT:
            return None
        name = self.c.adts[NT]['v'][v[2]]['n']
        if name in ('Keyword', 'ErrorKeyword'):
            k = 'K' if name == 'Keyword' else 'EK'
            return frozenset(l for l in self.gr.reachable if l[0] == k)
        x = v[3][0]
        if x[0] != 'a':
            return None
        if name.endswith('Nonterminal'):
            return frozenset([('N' if name == 'Nonterminal' else 'EN', self.nk[x[2]])])
        return frozenset([('T' if name == 'Terminal' else 'ET', self.tk[x[2]])])
    CLS = {'N': 'Nonterminal', 'T': 'Terminal', 'K': 'Keyword', 'EN': 'ErrorNonterminal', 'ET': 'ErrorTerminal', 'EK': 'ErrorKeyword'}
    def ntdiscr(self, l):
        return self.ntdis[self.ntvar[self.CLS[l[0]]]]
    def nkdiscr(self, l):
        if l[0] in ('N', 'EN'):
            return self.nkd[l[1]]
        return self.tkd.get(l[1])

    # ---------- value access
    def load(self, st, base, proj):
        if base[0] == 'l':
            v = st.env.get(base[1], TOP)
        elif base[0] == 'c':
            v = st.cells.get(base[1], TOP)
        else:
            v = base[1]
        return self.projv(st, v, proj)
    def projv(self, st, v, proj):
        for p in proj:
            if p[0] == 'f':
                i = p[1]
                if v[0] == 'a':
                    v = v[3][i] if i < len(v[3]) else TOP
                elif v[0] in ('t', 'cl'):
                    f = v[1] if v[0] == 't' else v[2]
                    v = f[i] if i < len(f) else TOP
                elif v[0] == 'nt':
                    v = ('nk', v[1])
                elif v[0] == 'n' and i == self.ixfield:
                    v = ('x', v[1], 'index')
                elif v[0] == 'box':
                    v = v if i == 0 else TOP
                else:
                    return TOP
            elif p[0] == 'x':
                if v[0] == 'arr' and p[1] < len(v[1]):
                    v = v[1][p[1]]
                else:
                    return TOP
            elif p[0] == '*':
                v = self.deref(st, v)
            else:
                return TOP
        return v
    def deref(self, st, v):
        if v[0] == 'r':
            return self.load(st, v[1], v[2])
        if v[0] == 'rv':
            return v[1]
        if v[0] == 'box':
            return v[1]
        if v[0] in ('s', 'code'):
            return v
        return TOP
    def loc(self, st, place):
        """-> (base, proj) or None (opaque)"""
        l, projs = place
        base, proj = ('l', l), ()
        for p in projs:
            if p == '*':
                v = self.load(st, base, proj)
                if v[0] == 'r':
                    base, proj = v[1], v[2]
                elif v[0] in ('rv', 'box'):
                    base, proj = ('v', v[1]), ()
                elif v[0] in ('s', 'code'):
                    base, proj = ('v', v), ()
                else:
                    return None
            elif p[0] == 'f':
                proj = proj + (('f', p[1]),)
            elif p[0] == 'd':
                pass
            elif p[0] == 'i':
                iv = st.env.get(p[1], TOP)
                if iv[0] != 'i':
                    return None
                proj = proj + (('x', iv[1]),)
            elif p[0] == 'ci' and not p[2]:
                proj = proj + (('x', p[1]),)
            else:
                return None
        return base, proj
    def read(self, st, place):
        if not place[1]:
            return st.env.get(place[0], TOP)
        lo = self.loc(st, place)
        if lo is None:
            return TOP
        return self.load(st, *lo)
    def setv(self, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        if p[0] == 'f':
            i = p[1]
            if v[0] == 'a':
                f = list(v[3])
                while len(f) <= i:
                    f.append(TOP)
                f[i] = self.setv(f[i], proj[1:], new)
                return ('a', v[1], v[2], tuple(f))
            if v[0] == 't':
                f = list(v[1])
                while len(f) <= i:
                    f.append(TOP)
                f[i] = self.setv(f[i], proj[1:], new)
                return ('t', tuple(f))
            if v[0] == 'cl':
                f = list(v[2])
                while len(f) <= i:
                    f.append(TOP)
                f[i] = self.setv(f[i], proj[1:], new)
                return ('cl', v[1], tuple(f))
            if v[0] == 'undef':
                f = [TOP]*i + [self.setv(('undef',), proj[1:], new)]
                return ('t', tuple(f))
            return TOP
        if p[0] == 'x' and v[0] == 'arr' and p[1] < len(v[1]):
            f = list(v[1])
            f[p[1]] = self.setv(f[p[1]], proj[1:], new)
            return ('arr', tuple(f))
        return TOP
    def store(self, st, base, proj, v):
        if base[0] == 'l':
            st.env[base[1]] = self.setv(st.env.get(base[1], ('undef',)), proj, v)
        elif base[0] == 'c':
            st.cells[base[1]] = self.setv(st.cells.get(base[1], TOP), proj, v)
    def write(self, st, place, v):
        if not place[1]:
            st.env[place[0]] = v
            return
        lo = self.loc(st, place)
        if lo is not None:
            self.store(st, lo[0], lo[1], v)

    # ---------- operands and constants
    def const(self, f, k):
        if 'fn' in k:
            return ('fn', k['fn'].get('key') or k['fn'].get('def'), freeze(k['fn']))
        if 'v' in k:
            return self.cval(k['v'])
        return TOP
    def cval(self, v):
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            return I(v)
        if isinstance(v, dict):
            if 'str' in v:
                return ('s', v['str'])
            if 'ref' in v:
                x = self.cval(v['ref'])
                return x if x[0] == 's' else ('rv', x)
            if 'adt' in v:
                return ('a', v['adt'], v['var'], tuple(self.cval(x) for x in v['f']))
            if 'tup' in v:
                return ('t', tuple(self.cval(x) for x in v['tup']))
            if 'arr' in v:
                return ('arr', tuple(self.cval(x) for x in v['arr']))
        return TOP
    def operand(self, f, st, o):
        if o[0] == 'k':
            return self.const(f, o[1])
        if o[0] in ('c', 'm'):
            v = self.read(st, o[1])
            if o[0] == 'm' and not o[1][1]:
                st.env.pop(o[1][0], None)
            return v
        if o[0] == 'rt':
            return TOP
        return TOP

    def rvalue(self, f, st, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(f, st, rv[1])
        if k == 'ref' or k == 'raw':
            pl = rv[2] if k == 'ref' else rv[-1]
            if not isinstance(pl, list):
                return TOP
            # reborrow of a constant/str
            if pl[1] == ['*']:
                v = st.env.get(pl[0], TOP)
                if v[0] in ('s', 'code', 'r', 'rv'):
                    return v
            lo = self.loc(st, pl)
            if lo is None:
                return TOP
            base, proj = lo
            if base[0] == 'v':
                x = self.projv(st, base[1], proj)
                return x if x[0] in ('s', 'code') else ('rv', x)
            return ('r', base, proj)
        if k == 'cast':
            v = self.operand(f, st, rv[2])
            return v if v[0] in ('i', 'r', 'rv', 's', 'code', 'fn', 'cl', 'n', 'x', 'e') else TOP
        if k == 'bin':
            a, b = self.operand(f, st, rv[2]), self.operand(f, st, rv[3])
            if rv[1] in ('Eq', 'Ne') and a[0] in ('x', 'e') and b[0] in ('x', 'e'):
                r = self.index_eq(st, a, b) or self.index_eq(st, b, a)
                if r:
                    return I(int(rv[1] == 'Eq'))
            return binop(rv[1], a, b)
        if k == 'un':
            a = self.operand(f, st, rv[2])
            if a[0] == 'i' and rv[1] in ('Not', 'not') and a[1] in (0, 1):
                return ('i', 1-a[1]) + a[2:]
            if a[0] == 'rv' and a[1][0] == 'arr' and 'etadata' in rv[1]:
                return I(len(a[1][1]))
            return TOP
        if k == 'discr':
            v = self.read(st, rv[1])
            if v[0] == 'a':
                ad = self.c.adts.get(v[1])
                dv = ad['v'][v[2]]['d'] if ad and v[2] < len(ad['v']) else v[2]
                return ('i', dv) + (('q',) if v[-1] == 'q' else ())
            if v[0] == 'nt':
                return ('dnt', v[1])
            if v[0] == 'nk':
                return ('dnk', v[1])
            return TOP
        if k == 'agg':
            kind = rv[1]
            if kind == 'adt':
                ad, vi, ops = rv[2][0], rv[2][1], rv[-1]
                if rv[2][2] not in (None, -1):
                    return TOP
                return ('a', ad, vi, tuple(self.operand(f, st, o) for o in ops))
            if kind == 'tup':
                return ('t', tuple(self.operand(f, st, o) for o in rv[-1]))
            if kind == 'array':
                return ('arr', tuple(self.operand(f, st, o) for o in rv[-1]))
            if kind == 'closure':
                return ('cl', rv[2], tuple(self.operand(f, st, o) for o in rv[-1]))
            for o in rv[-1]:
                self.operand(f, st, o)
            return TOP
        return TOP

    def index_eq(self, st, a, b):
        """a and b are certainly equal"""
        if a == b:
            return True
        # the first child follows its parent in the node array
        if a[0] == 'x' and a[2] == 'index' and b[0] == 'e' and b[1] == 'Add' and b[2][0][0] == 'x' and b[2][0][2] == 'index' and b[2][1] == I(1):
            p = b[2][0][1]
            k = st.g[p][2]
            return st.g[a[1]][1] == p and k is not None and self.t.find(st, p, a[1]) == 0 and not k[1][0]
        return False

    # ---------- canonicalisation
    def canon(self, vals, cells, st, maxd=None, frame=True):
        """Rename nodes (and cells) reachable from the given values.  Returns
        (key, nodemap old->new, cellorder list of old bases, cellmap)"""
        nm, order = {}, []
        cm, cells_out = {}, []
        def val(v):
            k = v[0]
            if k in ('i', 's', 'top', 'fn', 'undef'):
                return v
            if k in NODEK:
                n = v[1]
                if n not in nm:
                    nm[n] = len(nm)
                    order.append(n)
                return (k, nm[n]) + v[2:]
            if k == 'a':
                return (k, v[1], v[2], tuple(val(x) for x in v[3])) + v[4:]
            if k in ('t', 'arr'):
                return (k, tuple(val(x) for x in v[1]))
            if k == 'e':
                return (k, v[1], tuple(val(x) for x in v[2]))
            if k == 'cl':
                return (k, v[1], tuple(val(x) for x in v[2]))
            if k in ('rv', 'box'):
                return (k, val(v[1]))
            if k == 'r':
                b = v[1]
                if b[0] == 'v':
                    return ('rv', val(self.projv(st, b[1], v[2])))
                if b not in cm:
                    cm[b] = len(cells_out)
                    cells_out.append(b)
                return ('r', ('c', cm[b]), v[2])
            if k == 'it':
                return (k, v[1]) + tuple(val(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS else x for x in v[2:])
            return v
        out = [val(v) for v in vals]
        cv = []
        i = 0
        while i < len(cells_out):
            b = cells_out[i]
            cv.append(val(st.env.get(b[1], TOP) if b[0] == 'l' else st.cells.get(b[1], TOP)))
            i += 1
        # graph
        direct = set(order)
        dist = {n: 0 for n in order}
        keepall = maxd is None
        i = 0
        recs = []
        limit = 99 if keepall else maxd
        while i < len(order):
            n = order[i]
            i += 1
            lb, p, k, a, e = st.g[n]
            d = dist[n]
            for m in ([p] if p not in (None, -1) else []) + ([x[0] for x in k[0]] if k else []) + ([a] if a is not None else []):
                if m not in nm and m in st.g and d < limit:
                    nm[m] = len(nm)
                    order.append(m)
                    dist[m] = d+1
        for n in order:
            lb, p, k, a, e = st.g[n]
            p2 = p if p in (None, -1) else nm.get(p)
            k2 = None
            if k is not None and all(x[0] in nm for x in k[0]):
                k2 = (tuple((nm[x[0]], x[1], x[2]) for x in k[0]), k[1])
            a2 = nm.get(a) if a is not None else None
            recs.append((lb, p2, k2, a2, e))
        return (tuple(out), tuple(cv), tuple(recs)), nm, order, cells_out

    def widen(self, st, vals):
        """forget interior children that no live value refers to"""
        ref = set()
        def val(v):
            k = v[0]
            if k in NODEK:
                ref.add(v[1])
            elif k == 'a':
                for x in v[3]: val(x)
            elif k in ('t', 'arr'):
                for x in v[1]: val(x)
            elif k == 'e':
                for x in v[2]: val(x)
            elif k == 'cl':
                for x in v[2]: val(x)
            elif k in ('rv', 'box'):
                val(v[1])
            elif k == 'it':
                for x in v[2:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS:
                        val(x)
                    elif isinstance(x, tuple) and x and x[0] == 'cur':
                        ref.add(x[1])
        for v in vals:
            val(v)
        for n, (lb, p, k, a, e) in list(st.g.items()):
            if k and len(k[0]) > MAXKIDS:
                ents, gaps = list(k[0]), list(k[1])
                j = 3
                while len(ents) > MAXKIDS and j < len(ents)-1:
                    if ents[j][0] in ref or self.has_ref(st, ents[j][0], ref):
                        j += 1
                        continue
                    del ents[j]
                    gaps[j] = True
                    del gaps[j+1]
                if len(ents) < len(k[0]):
                    st.opq |= 4
                st.g[n] = (lb, p, (tuple(ents), tuple(gaps)), a, e)
    def has_ref(self, st, n, ref, depth=0):
        k = st.g[n][2]
        if not k or depth > 3:
            return False
        return any(x[0] in ref or self.has_ref(st, x[0], ref, depth+1) for x in k[0])

    # ---------- calls
    def call_fn(self, key, args, st):
        """interpret body `key`; returns [(ret, st)]"""
        f = self.fns[key]
        k, nm, order, cl = self.canon(args, None, st, maxd=self.maxd)
        mk = (key, k, st.opq & 2)
        res = self.memo.get(mk)
        if res is None:
            res = self.analyse(mk, f, k)
        inv = {v: o for o, v in nm.items()}
        out = []
        for ret, cells, recs, q in res:
            s = st.copy()
            m = dict(inv)
            for i in range(len(recs)):
                if i not in m:
                    m[i] = s.nxt
                    s.nxt += 1
            for i, (lb, p, kk, a, e) in enumerate(recs):
                n = m[i]
                p2 = p if p in (None, -1) else m[p]
                k2 = None if kk is None else (tuple((m[x[0]], x[1], x[2]) for x in kk[0]), kk[1])
                a2 = None if a is None else m[a]
                old = st.g.get(n)
                if old is not None:
                    if p2 is None or (old[1] is not None and old[1] != p2):
                        p2 = old[1]
                    if k2 is None:
                        k2, a2 = old[2], (old[3] if a2 is None else a2)
                    e = e and old[4] or old[4] and e
                s.g[n] = (lb, p2, k2, a2, e)
            for j, b in enumerate(cl):
                v = self.rename(cells[j], m, cl)
                if b[0] == 'l':
                    s.env[b[1]] = v
                elif b[0] == 'c':
                    s.cells[b[1]] = v
            s.opq = (st.opq & 6) | q
            out.append((self.rename(ret, m, cl), s))
        return out

    def rename(self, v, m, cl):
        k = v[0]
        if k in ('i', 's', 'top', 'fn', 'undef'):
            return v
        if k in NODEK:
            return (k, m[v[1]]) + v[2:]
        if k == 'a':
            return (k, v[1], v[2], tuple(self.rename(x, m, cl) for x in v[3])) + v[4:]
        if k in ('t', 'arr'):
            return (k, tuple(self.rename(x, m, cl) for x in v[1]))
        if k == 'e':
            return (k, v[1], tuple(self.rename(x, m, cl) for x in v[2]))
        if k == 'cl':
            return (k, v[1], tuple(self.rename(x, m, cl) for x in v[2]))
        if k in ('rv', 'box'):
            return (k, self.rename(v[1], m, cl))
        if k == 'r':
            if v[1][0] == 'c':
                return ('r', cl[v[1][1]], v[2])
            return TOP
        if k == 'it':
            return (k, v[1]) + tuple(self.rename(x, m, cl) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS else x for x in v[2:])
        return v

    def analyse(self, mk, f, k):
        if mk in self.inprog:
            self.inprog[mk][1] = True
            return list(self.inprog[mk][0])
        if self.bounded and self.stack.count(f['key']) >= 2:
            self.cut = True
            return []
        if len(self.inprog) > 60:
            self.stats.bailed[f['key']] = 'call depth'
            return self.topresult(f, k)
        ent = [[], False]
        self.inprog[mk] = ent
        self.stack.append(f['key'])
        try:
            rounds = 0
            while True:
                ent[1] = False
                try:
                    res = self.run(f, k, mk[2])
                except Bail as e:
                    if str(e) == 'budget':
                        raise
                    self.stats.bailed[f['key']] = str(e)
                    res = self.topresult(f, k)
                    ent[0] = res
                    break
                new = [r for r in res if r not in ent[0]]
                if not ent[1] or not new:
                    ent[0] = ent[0] + new
                    break
                ent[0] = ent[0] + new
                rounds += 1
                if rounds > 8 or len(ent[0]) > 200:
                    self.stats.bailed[f['key']] = 'recursion'
                    ent[0] = self.topresult(f, k)
                    break
        finally:
            self.stack.pop()
            del self.inprog[mk]
        # results that depend on an outer in-progress call are not final
        if not any(e[1] for e in self.inprog.values()):
            self.memo[mk] = ent[0]
        return ent[0]

    def topresult(self, f, k):
        (args, cells, recs) = k
        return [(TOP, tuple(TOP for _ in cells), recs, 5)]

    def loopheads(self, f):
        h = self.loops.get(f['key'])
        if h is None:
            preds = {}
            for i, b in enumerate(f['blocks']):
                if b['c']:
                    continue
                for t in succ(b['t']):
                    preds[t] = preds.get(t, 0) + 1
            h = {t for t, n in preds.items() if n > 1}
            self.loops[f['key']] = h
        return h

    def run(self, f, k, opq=0):
        (args, cells, recs) = k
        self.stats.fns.add(f['key'])
        st = St({}, dict(enumerate(cells)), dict(enumerate(recs)), len(recs), opq)
        for i, a in enumerate(args):
            st.env[i+1] = a
        if f['spread'] not in (-1, None, 0) and f['spread'] == len(args):
            pass
        heads = self.loopheads(f)
        seen = {}
        work = [(0, st)]
        outs, outkeys = [], set()
        n = 0
        while work:
            bb, st = work.pop() if self.rng is None or self.rng.random() < .5 else work.pop(self.rng.randrange(len(work)))
            n += 1
            self.stats.states += 1
            self.total += 1
            if n > (MAXSTATES if not self.bounded else 400):
                if self.bounded:
                    self.cut = True
                    break
                raise Bail('states')
            if self.total > 4000000:
                raise Bail('global')
            if bb in heads:
                locs = sorted(st.env)
                vals = [st.env[l] for l in locs] + [st.cells[c] for c in sorted(st.cells)]
                self.widen(st, vals)
                # locals referenced by refs are cells in the canonical form
                key, _, _, _ = self.canon(vals, None, st)
                kk = (tuple(locs), key)
                if kk in seen.setdefault(bb, set()):
                    continue
                seen[bb].add(kk)
                if len(seen[bb]) > (600 if not self.bounded else 20):
                    if self.bounded:
                        self.cut = True
                        continue
                    raise Bail('loop')
            blk = f['blocks'][bb]
            self.cur = st
            for s in blk['s']:
                if s[0] == '=':
                    v = self.rvalue(f, st, s[2])
                    self.write(st, s[1], v)
                elif s[0] == 'dead':
                    st.env.pop(s[1], None)
                elif s[0] == 'sd':
                    self.write(st, s[1], TOP)
            t = blk['t']
            kind = t[0]
            if kind == 'goto':
                work.append((t[1], st))
            elif kind == 'ret':
                vals = [st.env.get(0, UNIT)] + [st.cells[i] for i in range(len(cells))]
                # keep original node ids: canonicalise with inputs first
                if self.bounded and len(outs) >= 40:
                    break
                r = self.outcome(st, vals, len(recs))
                if r not in outkeys:
                    outkeys.add(r)
                    outs.append(r)
            elif kind == 'switch':
                work += self.switch(f, bb, st, t)
            elif kind == 'drop':
                work.append((t[2], st))
            elif kind == 'assert':
                v = self.operand(f, st, t[1])
                exp = 1 if t[2] else 0
                if v[0] == 'i':
                    if v[1] == exp:
                        self.oblig(f, bb, 'assert', 'ok')
                        work.append((t[4], st))
                    else:
                        self.oblig(f, bb, 'assert', 'undecided' if tainted(v) else 'alarm', str(t[3]), st)
                else:
                    self.oblig(f, bb, 'assert', 'undecided')
                    work.append((t[4], st))
            elif kind == 'call':
                for ret, s in self.do_call(f, bb, st, t):
                    if t[4] is None or t[4] < 0:
                        continue
                    self.write(s, t[3], ret)
                    work.append((t[4], s))
            elif kind in ('unreach', 'resume', 'abort'):
                pass
            else:
                raise Bail('terminator ' + kind)
        return outs

    def outcome(self, st, vals, nin):
        nm = {i: i for i in range(nin)}
        order = list(range(nin))
        def val(v):
            k = v[0]
            if k in ('i', 's', 'top', 'fn', 'undef'):
                return v
            if k in NODEK:
                n = v[1]
                if n not in nm:
                    nm[n] = len(nm)
                    order.append(n)
                return (k, nm[n]) + v[2:]
            if k == 'a':
                return (k, v[1], v[2], tuple(val(x) for x in v[3])) + v[4:]
            if k in ('t', 'arr'):
                return (k, tuple(val(x) for x in v[1]))
            if k == 'e':
                return (k, v[1], tuple(val(x) for x in v[2]))
            if k == 'cl':
                return (k, v[1], tuple(val(x) for x in v[2]))
            if k in ('rv', 'box'):
                return (k, val(v[1]))
            if k == 'r':
                b = v[1]
                if b[0] == 'c':
                    return v
                if b[0] == 'v':
                    return ('rv', val(self.projv(st, b[1], v[2])))
                x = self.load(st, b, v[2])
                return ('rv', val(x))
            if k == 'it':
                return (k, v[1]) + tuple(val(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS else x for x in v[2:])
            return v
        out = [val(v) for v in vals]
        i = 0
        while i < len(order):
            n = order[i]
            i += 1
            lb, p, k, a, e = st.g[n]
            for m in ([p] if p not in (None, -1) else []) + ([x[0] for x in k[0]] if k else []) + ([a] if a is not None else []):
                if m not in nm:
                    nm[m] = len(nm)
                    order.append(m)
        recs = []
        for n in order:
            lb, p, k, a, e = st.g[n]
            recs.append((lb, p if p in (None, -1) else nm[p], None if k is None else (tuple((nm[x[0]], x[1], x[2]) for x in k[0]), k[1]), None if a is None else nm[a], e))
        return (out[0], tuple(out[1:]), tuple(recs), st.opq)

    def switch(self, f, bb, st, t):
        v = self.operand(f, st, t[1])
        tg, other = t[2], t[3]
        if v[0] == 'i':
            st.opq = (st.opq & 6) | (1 if len(v) > 2 else 0)
            for x, b in tg:
                if x == v[1]:
                    return [(b, st)]
            return [(other, st)]
        if v[0] in ('dnt', 'dnk'):
            fn = self.ntdiscr if v[0] == 'dnt' else self.nkdiscr
            labels, exact = st.g[v[1]][0], st.g[v[1]][4]
            out = []
            rest = set(labels)
            for x, b in tg:
                ls = {l for l in labels if fn(l) == x}
                rest -= ls
                if ls:
                    s = st.copy()
                    s.opq = (s.opq & 6) | (0 if exact else 3)
                    if self.t.setl(s, v[1], frozenset(ls)):
                        out.append((b, s))
            if rest:
                s = st.copy()
                s.opq = (s.opq & 6) | (0 if exact else 3)
                if self.t.setl(s, v[1], frozenset(rest)):
                    out.append((other, s))
            return out
        out = []
        bs = sorted({b for _, b in tg} | {other})
        for b in bs:
            if self.fblock_unreach(f, b):
                continue
            s = st.copy()
            s.opq = (s.opq & 6) | STICKYTOP
            out.append((b, s))
        return out
    def fblock_unreach(self, f, b):
        return f['blocks'][b]['t'][0] == 'unreach'

    def oblig(self, f, bb, kind, status, detail='', st=None):
        if status == 'alarm' and st is not None and st.opq & 2:
            status = 'undecided'
        k = (f['key'], bb, kind)
        o = self.stats.obl.get(k)
        rank = {'ok': 0, 'undecided': 1, 'alarm': 2}
        if o is None or rank[status] > rank[o]:
            self.stats.obl[k] = status
        if status == 'alarm' and k not in self.stats.alarm:
            t = f['blocks'][bb]['t']
            try:
                detail += ' [tree: ' + '; '.join(shownode(self, self.cur, n) for n in sorted(self.cur.g)[:3]) + ']'
            except Exception:
                pass
            self.stats.alarm[k] = (detail, list(self.stack), f['file'], next((x for x in t[::-1] if isinstance(x, int) and x > 10), 0))

    def do_call(self, f, bb, st, t):
        callee = t[1]
        args = [self.operand(f, st, a) for a in t[2]]
        self.stats.calls += 1
        if 'ptr' in callee:
            fv = self.operand(f, st, callee['ptr'])
            r = []
            for ret, _, s in self.call_value(f, bb, fv, args, st):
                r.append((ret, s))
            return r
        return self.call_def(f, bb, callee, args, st, diverges=(t[4] is None or t[4] < 0))

    def call_def(self, f, bb, callee, args, st, diverges=False):
        d = callee.get('def', '')
        res = callee.get('res') or d
        m = self.models.get(res) or self.models.get(d)
        if m is not None:
            r = m(f, bb, callee, args, st)
            if r is not None:
                return r
        if callee.get('note') == 'ctor':
            pass
        key = callee.get('key')
        if d.startswith('core::iter::traits::iterator::Iterator::') or d.startswith('core::iter::traits::') and args:
            r = self.iter_method(f, bb, d.rsplit('::', 1)[1], callee, args, st)
            if r is not None:
                return r
        if diverges or d.startswith(PANIC_PREFIX):
            if diverges or any(d.startswith(p) for p in PANIC_PREFIX):
                self.oblig(f, bb, 'panic', 'undecided' if st.opq & 3 else 'alarm', d, st)
                return []
        if key in self.fns and self.interpretable(self.fns[key]):
            sh = self.shape.get(key)
            if sh is not None:
                self.check_shape(f, bb, key, sh, args, st)
            return self.call_fn(key, args, st)
        # opaque: havoc everything behind mutable references
        for a in args:
            self.havoc(st, a)
        return [(TOP, st)]
    def require(self, st, n, req):
        """-> [(ok, st)]: does node n satisfy the requirement {child0, child1, last, parent}"""
        cur = [st]
        bad = []
        for k, ls in sorted(req.items()):
            nx = []
            for s in cur:
                if k == 'parent':
                    r = self.t.parent(s, n)
                elif k == 'last':
                    r = self.t.last_child(s, n)
                else:
                    r = [((v[3][0][1] if is_some(v) else None if v == NONE else 'q'), s2) for v, _, s2 in
                         self.it_next(None, 0, ('it', 'skip', ('it', 'sib', ('n', n), 'start'), int(k[5:])), s)]
                for c, s2 in r:
                    if c == 'q':
                        continue
                    if c is None:
                        bad.append(s2)
                        continue
                    lb = s2.g[c][0]
                    if lb & ls:
                        s3 = s2.copy()
                        if self.t.setl(s3, c, lb & ls):
                            nx.append(s3)
                    if lb - ls:
                        s3 = s2.copy()
                        if self.t.setl(s3, c, lb - ls):
                            if not s2.g[c][4]:
                                s3.opq |= 2
                            bad.append(s3)
            cur = nx
        return [(True, s) for s in cur] + [(False, s) for s in bad]
    def check_shape(self, f, bb, key, req, args, st):
        if not args or args[0][0] != 'n' or not st.g[args[0][1]][4]:
            return
        labels = st.g[args[0][1]][0]
        if len(labels) != 1:
            return
        self.oblig(f, bb, 'shape', 'ok')
        for ok, s in self.require(st.copy(), args[0][1], req):
            if not ok:
                self.cur = s
                self.oblig(f, bb, 'shape', 'undecided' if s.opq & 3 else 'alarm', 'a node of another form is wrapped by %s: %s' % (key, shownode(self, s, args[0][1])), s)
    def interpretable(self, f):
        return not f['generic'] or f['krate'] == 'parsa_python_cst'

    def havoc(self, st, a, depth=0):
        # shared references of plain values stay; we cannot tell them apart, so only iterators and closures
        if a[0] == 'r' and a[1][0] in ('l', 'c'):
            v = self.load(st, a[1], a[2])
            if v[0] in ('it', 'cl'):
                self.store(st, a[1], a[2], TOP)
            elif v[0] == 'i':
                self.store(st, a[1], a[2], TOP)
        elif a[0] == 'cl':
            for x in a[2]:
                self.havoc(st, x)

    def call_value(self, f, bb, fv, args, st):
        """-> [(ret, fv', st)]"""
        if fv[0] in ('r', 'rv'):
            inner = self.deref(st, fv)
            out = []
            for ret, fv2, s in self.call_value(f, bb, inner, args, st):
                if fv[0] == 'r' and fv2 != inner:
                    self.store(s, fv[1], fv[2], fv2)
                out.append((ret, fv, s))
            return out
        if fv[0] == 'fn':
            callee = thaw(fv[2])
            return [(r, fv, s) for r, s in self.call_def(f, bb, callee, args, st)]
        if fv[0] == 'cl' and fv[1] in self.fns:
            g = self.fns[fv[1]]
            byref = g['tys'][g['locals'][1][0]]['k'] == 'ref'
            if byref:
                tmp = ('l', ('tmp', len(st.env), self.total, len(self.stack)))
                st.env[tmp[1]] = fv
                a0 = ('r', tmp, ())
            else:
                a0 = fv
            if g['argc'] == 2 and len(args) != 1 and g['spread'] not in (None, -1):
                args = [('t', tuple(args))]
            out = []
            for ret, s in self.call_fn(fv[1], [a0] + list(args), st):
                fv2 = fv
                if byref:
                    fv2 = s.env.pop(tmp[1], fv)
                out.append((ret, fv2, s))
            if byref:
                st.env.pop(tmp[1], None)
            return out
        for a in args:
            self.havoc(st, a)
        self.havoc(st, fv)
        return [(TOP, fv, st)]

    # ---------- iterators
    def nextq(self, r):
        """graph result list -> [(Option value, st)]"""
        out = []
        for c, s in r:
            if c is None:
                out.append((NONE, s))
            elif c == 'q':
                out.append((QNONE, s))
            else:
                out.append((some(('n', c)), s))
        return out
    def it_next(self, f, bb, it, st):
        """-> [(Option value, it', st)]"""
        if it[0] in ('r', 'rv'):
            inner = self.deref(st, it)
            out = []
            for v, it2, s in self.it_next(f, bb, inner, st):
                if it[0] == 'r':
                    self.store(s, it[1], it[2], it2)
                out.append((v, it, s))
            return out
        if it[0] == 'box':
            return [(v, ('box', i2), s) for v, i2, s in self.it_next(f, bb, it[1], st)]
        if it[0] == 'a':
            if it[1] == OPT:  # option::IntoIter
                if it[2] == 0:
                    return [(it, it, st)]
                return [(it, NONE, st)]
            keys = self.by_impl.get(it[1])
            if keys:
                tmp = ('l', ('tmp', len(st.env), self.total, len(self.stack)))
                st.env[tmp[1]] = it
                out = []
                for ret, s in self.call_fn(keys[0], [('r', tmp, ())], st):
                    it2 = s.env.pop(tmp[1], TOP)
                    out.append((ret, it2, s))
                return out
        if it[0] != 'it':
            return self.opq_next(it, st)
        k = it[1]
        if k == 'sib':
            p, cur = it[2][1], it[3]
            if cur == 'end':
                return [(NONE, it, st)]
            c0 = None if cur == 'start' else cur[1]
            if c0 is not None and st.g.get(c0) is None:
                return self.opq_next(it, st)
            out = []
            for c, s in self.t.first_after(st, p, c0):
                if c is None:
                    out.append((NONE, ('it', 'sib', it[2], 'end'), s))
                elif c == 'q':
                    out.append((QNONE, ('it', 'sib', it[2], 'end'), s))
                else:
                    out.append((some(('n', c)), ('it', 'sib', it[2], ('n', c)), s))
            return out
        if k == 'nodes':
            s2 = st.copy()
            n = s2.new(self.gr.reachable)
            s2.opq |= 4
            return [(QNONE, it, st), (some(('n', n)), it, s2)]
        if k == 'search':
            labels, exact = it[2], it[3]
            out = [(QNONE, it, st)]
            if labels:
                s2 = st.copy()
                n = s2.new(labels, exact=exact)
                s2.opq |= 4
                out.append((some(('n', n)), it, s2))
            return out
        if k == 'arr':   # by value or by ref over known elements
            els, i, byref = it[2], it[3], it[4]
            if i >= len(els):
                return [(NONE, it, st)]
            v = els[i]
            return [(some(('rv', v) if byref and v[0] not in ('s', 'code') else v), ('it', 'arr', els, i+1, byref), st)]
        if k == 'empty':
            return [(NONE, it, st)]
        if k == 'once':
            return [(some(it[2]), ('it', 'empty'), st)]
        if k == 'skip':
            inner, n = it[2], it[3]
            cur = [(None, inner, st)]
            res = []
            for _ in range(min(n, 12)):
                nx = []
                for _, i2, s in cur:
                    for v, i3, s2 in self.it_next(f, bb, i2, s):
                        if is_some(v):
                            nx.append((None, i3, s2))
                        elif is_none(v):
                            res.append((v, ('it', 'skip', i3, 0), s2))
                        else:
                            nx.append((None, i3, s2))
                cur = nx
            for _, i2, s in cur:
                for v, i3, s2 in self.it_next(f, bb, i2, s):
                    res.append((v, ('it', 'skip', i3, 0), s2))
            return res
        if k == 'step':
            inner, n, first = it[2], it[3], it[4]
            if first:
                return [(v, ('it', 'step', i2, n, False), s) for v, i2, s in self.it_next(f, bb, inner, st)]
            res = []
            for v, i2, s in self.it_next(f, bb, ('it', 'skip', inner, n-1), st):
                res.append((v, ('it', 'step', i2[2], n, False), s))
            return res
        if k == 'take':
            inner, n = it[2], it[3]
            if n <= 0:
                return [(NONE, it, st)]
            return [(v, ('it', 'take', i2, n-1), s) for v, i2, s in self.it_next(f, bb, inner, st)]
        if k == 'enum':
            inner, n = it[2], it[3]
            res = []
            for v, i2, s in self.it_next(f, bb, inner, st):
                if is_some(v):
                    v = some(('t', (n, v[3][0])))
                elif not is_none(v):
                    v = TOP
                n2 = I(n[1]+1) if n[0] == 'i' and n[1] < 4 else TOP
                res.append((v, ('it', 'enum', i2, n2), s))
            return res
        if k == 'map':
            inner, fn = it[2], it[3]
            res = []
            for v, i2, s in self.it_next(f, bb, inner, st):
                if is_some(v):
                    for r, fn2, s2 in self.call_value(f, bb, fn, [v[3][0]], s):
                        res.append((some(r), ('it', 'map', i2, fn2), s2))
                elif is_none(v):
                    res.append((v, ('it', 'map', i2, fn), s))
                else:
                    res += [(QNONE, ('it', 'map', i2, fn), s)]
                    for r, fn2, s2 in self.call_value(f, bb, fn, [TOP], s.copy()):
                        res.append((some(r), ('it', 'map', i2, fn2), s2))
            return res
        if k in ('filter', 'filter_map', 'skip_while', 'take_while', 'map_while'):
            return self.it_filter(f, bb, k, it, st)
        if k == 'chain':
            a, b = it[2], it[3]
            res = []
            if a != NONE:
                for v, a2, s in self.it_next(f, bb, a, st):
                    if is_none(v):
                        for v2, b2, s2 in self.it_next(f, bb, b, s):
                            res.append((v2, ('it', 'chain', NONE, b2), s2))
                    else:
                        res.append((v, ('it', 'chain', a2, b), s))
                return res
            return [(v, ('it', 'chain', NONE, b2), s) for v, b2, s in self.it_next(f, bb, b, st)]
        if k == 'peek':
            inner, pk = it[2], it[3]
            if pk != ('i', 0):
                return [(pk, ('it', 'peek', inner, I(0)), st)]
            return [(v, ('it', 'peek', i2, I(0)), s) for v, i2, s in self.it_next(f, bb, inner, st)]
        if k == 'fuse':
            return [(v, ('it', 'fuse', i2), s) for v, i2, s in self.it_next(f, bb, it[2], st)]
        if k == 'cloned':
            res = []
            for v, i2, s in self.it_next(f, bb, it[2], st):
                if is_some(v):
                    v = some(self.deref(s, v[3][0]))
                res.append((v, ('it', 'cloned', i2), s))
            return res
        if k == 'from_fn':
            return [(v, ('it', 'from_fn', fn2), s) for v, fn2, s in self.call_value(f, bb, it[2], [], st)]
        return self.opq_next(it, st)
    def opq_next(self, it, st):
        return [(TOP, TOP, st)]

    def it_filter(self, f, bb, k, it, st):
        inner, fn = it[2], it[3]
        flag = it[4] if len(it) > 4 else I(0)
        res = []
        work = [(inner, fn, flag, st)]
        seen = set()
        n = 0
        while work:
            inner, fn, flag, s0 = work.pop()
            n += 1
            if n > 400:
                return self.opq_next(it, st)
            if k == 'take_while' and flag == I(1):
                res.append((NONE, ('it', k, inner, fn, flag), s0))
                continue
            for v, i2, s in self.it_next(f, bb, inner, s0):
                if is_none(v):
                    res.append((v, ('it', k, i2, fn, flag), s))
                    continue
                if not is_some(v):
                    res.append((TOP, TOP, s))
                    continue
                x = v[3][0]
                if k == 'skip_while' and flag == I(1):
                    res.append((v, ('it', k, i2, fn, flag), s))
                    continue
                if k in ('filter_map', 'map_while'):
                    for r, fn2, s2 in self.call_value(f, bb, fn, [x], s):
                        if is_some(r):
                            res.append((r, ('it', k, i2, fn2, flag), s2))
                        elif is_none(r):
                            if k == 'map_while':
                                res.append((r, ('it', k, i2, fn2, flag), s2))
                            else:
                                self._again(work, seen, i2, fn2, flag, s2)
                        else:
                            res.append((TOP, TOP, s2))
                    continue
                for r, fn2, s2 in self.call_value(f, bb, fn, [('rv', x)], s):
                    alts = [(r, s2)]
                    if r[0] != 'i':
                        alts = [(('i', 1, 'q'), s2), (('i', 0, 'q'), s2.copy())]
                    for b, s3 in alts:
                        ok = b[1] == 1
                        if k == 'filter':
                            if ok:
                                res.append((v, ('it', k, i2, fn2, flag), s3))
                            else:
                                self._again(work, seen, i2, fn2, flag, s3)
                        elif k == 'skip_while':
                            if ok:
                                self._again(work, seen, i2, fn2, flag, s3)
                            else:
                                res.append((v, ('it', k, i2, fn2, I(1)), s3))
                        else:
                            if ok:
                                res.append((v, ('it', k, i2, fn2, flag), s3))
                            else:
                                res.append((NONE, ('it', k, i2, fn2, I(1)), s3))
        return res
    def _again(self, work, seen, i2, fn2, flag, s):
        locs = sorted(s.env, key=str)
        vals = [i2, fn2, flag] + [s.env[l] for l in locs] + [s.cells[c] for c in sorted(s.cells)]
        self.widen(s, vals)
        key = self.canon(vals, None, s)[0]
        if key not in seen:
            seen.add(key)
            work.append((i2, fn2, flag, s))

    def fold(self, f, bb, it, st, body, init):
        """generic consumption: body(acc, item, st) -> [(acc', stop?, st)]; -> [(acc, it, st)]"""
        res = []
        work = [(it, init, st)]
        seen = set()
        n = 0
        while work:
            it, acc, s0 = work.pop()
            n += 1
            if n > 500:
                raise Bail('fold')
            for v, i2, s in self.it_next(f, bb, it, s0):
                if is_none(v):
                    res.append((acc, i2, s, v))
                elif is_some(v):
                    for a2, stop, s2 in body(acc, v[3][0], s):
                        if stop:
                            res.append((a2, i2, s2, v))
                            continue
                        locs = sorted(s2.env, key=str)
                        vals = [i2, a2] + [s2.env[l] for l in locs] + [s2.cells[c] for c in sorted(s2.cells)]
                        self.widen(s2, vals)
                        key = self.canon(vals, None, s2)[0]
                        if key not in seen:
                            seen.add(key)
                            work.append((i2, a2, s2))
                else:
                    return None
        return res

    def iter_method(self, f, bb, name, callee, args, st):
        if not args:
            return None
        it = args[0]
        if name == 'into_iter':
            if it[0] == 'arr':
                return [(('it', 'arr', it[1], 0, False), st)]
            if it[0] in ('r', 'rv'):
                v = self.deref(st, it)
                if v[0] == 'arr':
                    return [(('it', 'arr', v[1], 0, True), st)]
            return [(it, st)]
        if name == 'iter' :
            return None
        n = args[1] if len(args) > 1 else None
        if name == 'next':
            return [(v, s) for v, _, s in self.it_next(f, bb, it, st)]
        if name == 'by_ref':
            return [(it, st)]
        if it[0] == 'top':
            for a in args[1:]:
                self.havoc(st, a)
            return [(TOP, st)]
        if name in ('skip', 'step_by', 'take'):
            if n[0] != 'i':
                return [(TOP, st)]
            if name == 'skip':
                return [(('it', 'skip', it, n[1]), st)]
            if name == 'take':
                return [(('it', 'take', it, n[1]), st)]
            return [(('it', 'step', it, n[1], True), st)]
        if name in ('map', 'filter', 'filter_map', 'skip_while', 'take_while', 'map_while'):
            return [(('it', name, it, n), st)]
        if name == 'chain':
            return [(('it', 'chain', it, n), st)]
        if name == 'enumerate':
            return [(('it', 'enum', it, I(0)), st)]
        if name == 'peekable':
            return [(('it', 'peek', it, I(0)), st)]
        if name == 'fuse':
            return [(('it', 'fuse', it), st)]
        if name in ('cloned', 'copied'):
            return [(('it', 'cloned', it), st)]
        if name == 'rev' and it[0] == 'it' and it[1] == 'arr' and it[3] == 0:
            return [(('it', 'arr', it[2][::-1], 0, it[4]), st)]
        if name == 'nth':
            if n[0] != 'i':
                return [(TOP, st)]
            isref = it[0] in ('r', 'rv')
            inner = self.deref(st, it) if isref else it
            out = []
            for v, i2, s in self.it_next(f, bb, ('it', 'skip', inner, n[1]), st):
                if it[0] == 'r':
                    self.store(s, it[1], it[2], i2[2] if i2[0] == 'it' else TOP)
                out.append((v, s))
            return out
        if name == 'last':
            if it[0] == 'it' and it[1] == 'sib' and it[3] == 'start':
                return self.nextq(self.t.last_child(st, it[2][1]))
            if it[0] == 'it' and it[1] == 'skip' and it[2][0] == 'it' and it[2][1] == 'sib':
                # last of the children after skipping n
                out = []
                for v, i2, s in self.it_next(f, bb, it, st):
                    if is_none(v):
                        out.append((v, s))
                    elif is_some(v):
                        out += self.nextq(self.t.last_child(s, it[2][2][1]))
                    else:
                        out.append((TOP, s))
                return out
            r = self.fold(f, bb, it, st, lambda a, x, s: [(some(x), False, s)], NONE)
            if r is None:
                return [(TOP, st)]
            return [(a if not (is_none(a) and e[-1] == 'q') else QNONE, s) for a, _, s, e in r]
        if name in ('any', 'all', 'find', 'find_map', 'position', 'count', 'for_each', 'fold', 'max', 'min', 'sum', 'collect'):
            return self.consume(f, bb, name, it, args, st)
        return None

    def consume(self, f, bb, name, it, args, st):
        ref = it if it[0] == 'r' else None
        def bools(r, s):
            if r[0] == 'i':
                return [(r, s)]
            return [(('i', 1, 'q'), s), (('i', 0, 'q'), s.copy())]
        fn = args[1] if len(args) > 1 else None
        def body(acc, x, s):
            out = []
            if name == 'count':
                return [(I(acc[1]+1) if acc[0] == 'i' and acc[1] < 3 else TOP, False, s)]
            if name == 'collect':
                return [(TOP, False, s)]
            if name in ('any', 'all', 'for_each', 'find_map', 'position'):
                for r, _, s2 in self.call_value(f, bb, fn, [x], s):
                    if name == 'for_each':
                        out.append((acc, False, s2))
                    elif name == 'find_map':
                        if is_some(r):
                            out.append((r, True, s2))
                        elif is_none(r):
                            out.append((acc, False, s2))
                        else:
                            out.append((TOP, True, s2))
                    else:
                        for b, s3 in bools(r, s2):
                            if name == 'any':
                                out.append((('i', 1) + b[2:], True, s3) if b[1] else (acc, False, s3))
                            elif name == 'all':
                                out.append((acc, False, s3) if b[1] else (('i', 0) + b[2:], True, s3))
                            else:
                                out.append((some(TOP), True, s3) if b[1] else (acc, False, s3))
                return out
            if name == 'find':
                for r, _, s2 in self.call_value(f, bb, fn, [('rv', x)], s):
                    for b, s3 in bools(r, s2):
                        out.append((some(x), True, s3) if b[1] else (acc, False, s3))
                return out
            return [(TOP, False, s)]
        init = {'count': I(0), 'any': I(0), 'all': I(1), 'find': NONE, 'find_map': NONE, 'position': NONE, 'for_each': UNIT}.get(name, TOP)
        inner = self.deref(st, it) if ref else it
        r = self.fold(f, bb, inner, st, body, init)
        if r is None:
            return [(TOP, st)]
        out = []
        for acc, i2, s, e in r:
            if ref:
                self.store(s, ref[1], ref[2], i2)
            if e[-1] == 'q' and acc == init and acc[0] in ('i', 'a'):
                acc = acc + ('q',)
            out.append((acc, s))
        return out

NODEK = frozenset(['n', 'nt', 'nk', 'dnt', 'dnk', 'code', 'x'])
KINDS = frozenset(['i', 's', 'top', 'fn', 'undef', 'n', 'nt', 'nk', 'dnt', 'dnk', 'code', 'x', 'e', 'a', 't', 'arr', 'cl', 'rv', 'box', 'r', 'it'])

def strip(t):
    return re.sub(r'<.*', '', t)
def succ(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None and t[4] >= 0 else []
    if k == 'assert': return [t[4]]
    return []
def freeze(x):
    if isinstance(x, dict):
        return ('D',) + tuple((k, freeze(v)) for k, v in sorted(x.items()))
    if isinstance(x, list):
        return ('L',) + tuple(freeze(v) for v in x)
    return x
def thaw(x):
    if isinstance(x, tuple) and x and x[0] == 'D':
        return {k: thaw(v) for k, v in x[1:]}
    if isinstance(x, tuple) and x and x[0] == 'L':
        return [thaw(v) for v in x[1:]]
    return x
def binop(op, a, b):
    q = ('q',) if (a[-1] == 'q' or b[-1] == 'q') else ()
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        r = {'Eq': lambda: int(x == y), 'Ne': lambda: int(x != y), 'Lt': lambda: int(x < y), 'Le': lambda: int(x <= y),
             'Gt': lambda: int(x > y), 'Ge': lambda: int(x >= y), 'Add': lambda: x+y, 'Sub': lambda: x-y, 'Mul': lambda: x*y,
             'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y}.get(o)
        if r is None:
            return TOP if 'WithOverflow' not in op else ('t', (TOP, TOP))
        v = r()
        if 'WithOverflow' in op:
            return ('t', (('i', v) + q, ('i', int(v < 0)) + q))
        return ('i', v) + q
    if a[0] == 'i' and op == 'BitAnd' and a[1] == 0 or b[0] == 'i' and op == 'BitAnd' and b[1] == 0:
        return I(0)
    o = op.replace('WithOverflow', '').replace('Unchecked', '')
    if o in ('Add', 'Sub') and a[0] in ('x', 'e', 'i') and b[0] in ('x', 'e', 'i') and not q and esize(a) + esize(b) < 6:
        e = ('e', o, (a, b))
        return ('t', (e, TOP)) if 'WithOverflow' in op else e
    if 'WithOverflow' in op:
        return ('t', (TOP, TOP))
    return TOP

def esize(v):
    return 1 if v[0] != 'e' else sum(esize(x) for x in v[2])

# ------------------------------------------------------------------ models
def build_models(ip):
    M = {}
    T = ip.t
    PN = "parsa_python::PyNode::<'a>::"
    def model(*names):
        def deco(fn):
            for n in names:
                M[n] = fn
            return fn
        return deco
    def node(st, v):
        for _ in range(3):
            if v[0] == 'n':
                return v[1]
            v = ip.deref(st, v)
        return None
    def topnode(st):
        st.opq |= 4
        return st.new(ip.gr.reachable, exact=False)
    def nodeset(st, v):
        # &'static [PyNodeType]
        v2 = ip.deref(st, v)
        if v2[0] == 'arr':
            out = set()
            for x in v2[1]:
                l = ip.label_of(x)
                if l is None:
                    return None
                out |= l
            return frozenset(out)
        return None

    def split(st, n, ls):
        """-> [(True/False value, st)]"""
        labels, exact = st.g[n][0], st.g[n][4]
        out = []
        if labels & ls:
            s = st.copy()
            if not exact:
                s.opq |= 2
            if T.setl(s, n, labels & ls):
                out.append((B(1, not exact), s))
        if labels - ls:
            s = st.copy()
            if not exact:
                s.opq |= 2
            if T.setl(s, n, labels - ls):
                out.append((B(0, not exact), s))
        return out

    @model(PN + 'is_type')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            return [(TOP, st)]
        ty = a[1]
        if ty[0] == 'a' and ty[1] == NT and ip.c.adts[NT]['v'][ty[2]]['n'] in ('Keyword', 'ErrorKeyword'):
            ip.oblig(f, bb, 'is_type(Keyword)', 'alarm', 'is_type is called with a keyword type, which cannot be encoded')
            return []
        ls = ip.label_of(ty)
        if ls is None:
            return [(TOP, st)]
        return split(st, n, ls)
    @model(PN + 'is_type_or_error_thereof')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        ls = ip.label_of(a[1])
        if n is None or ls is None:
            return [(TOP, st)]
        return split(st, n, ls | frozenset(err(l) for l in ls))
    @model(PN + 'is_leaf')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            return [(TOP, st)]
        return split(st, n, frozenset(l for l in ip.gr.reachable if is_leaf(l)))
    @model(PN + 'is_error_recovery_node')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            return [(TOP, st)]
        return split(st, n, frozenset(l for l in ip.gr.reachable if l[0] in ('EN', 'ET', 'EK')))
    @model(PN + 'maybe_error_node')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            return [(TOP, st)]
        return [((some(('nk', n)) if b[1] else (QNONE if len(b) > 2 else NONE)), s) for b, s in split(st, n, frozenset(l for l in ip.gr.reachable if l[0] == 'EN'))]
    @model(PN + 'maybe_error_leaf')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            return [(TOP, st)]
        return [((some(('nk', n)) if b[1] else (QNONE if len(b) > 2 else NONE)), s) for b, s in split(st, n, frozenset(l for l in ip.gr.reachable if l[0] == 'ET'))]
    @model(PN + 'type_')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        return [(('nt', n) if n is not None else TOP, st)]
    @model(PN + 'as_code')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        return [(('code', n) if n is not None else TOP, st)]
    def scalar(nm):
        def m(f, bb, c, a, st):
            n = node(st, a[0])
            return [(('x', n, nm) if n is not None else TOP, st)]
        return m
    for nm in ('start', 'end', 'length', 'suffix', 'prefix_to_previous_leaf', 'type_str'):
        M[PN + nm] = scalar(nm)
    @model(PN + 'nth_child')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None or a[1][0] != 'i':
            return [(('n', topnode(st)), st)]
        out = []
        for b, s in split(st, n, frozenset(l for l in ip.gr.reachable if is_leaf(l))):
            if b[1]:
                ip.oblig(f, bb, 'nth_child on leaf', 'undecided' if tainted(b) else 'alarm', 'nth_child is called on a leaf: %s' % show(s.g[n][0]), s)
                continue
            ip.oblig(f, bb, 'nth_child on leaf', 'ok')
            for v, _, s2 in ip.it_next(f, bb, ('it', 'skip', ('it', 'sib', ('n', n), 'start'), a[1][1]), s):
                if is_some(v):
                    ip.oblig(f, bb, 'nth_child', 'ok')
                    out.append((v[3][0], s2))
                else:
                    ip.oblig(f, bb, 'nth_child', 'undecided' if tainted(v) or not s2.g[n][4] else 'alarm', 'there is no child %d in %s' % (a[1][1], shownode(ip, s2, n)), s2)
        return out
    @model(PN + 'iter_children')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        return [(('it', 'sib', ('n', n), 'start') if n is not None else TOP, st)]
    @model("parsa_python::SiblingIterator::<'a>::new_empty")
    def _(f, bb, c, a, st):
        return [(('it', 'empty'), st)]
    @model(PN + 'next_sibling')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            return [(TOP, st)]
        return ip.nextq(T.sibling(st, n, True))
    @model(PN + 'previous_sibling')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            return [(TOP, st)]
        return ip.nextq(T.sibling(st, n, False))
    @model(PN + 'parent')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            return [(TOP, st)]
        return ip.nextq(T.parent(st, n))
    @model(PN + 'parent_until')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        ls = nodeset(st, a[1])
        if n is None or ls is None:
            return [(TOP, st)]
        # ancestors labels
        out = []
        work = [(n, st)]
        d = 0
        while work and (d < 3 or d < 8 and all(len(s.g[m][0]) <= 6 for m, s in work)):
            nx = []
            for m, s in work:
                for p, s2 in T.parent(s, m):
                    if p is None:
                        out.append((NONE, s2))
                        continue
                    for b, s3 in split(s2, p, ls):
                        if b[1]:
                            out.append((some(('n', p)), s3))
                        else:
                            nx.append((p, s3))
            work = nx
            d += 1
            if len(out) > 40:
                break
        # beyond: any ancestor with a label in ls, or none
        for m, s in work:
            anc, stack = set(), list(s.g[m][0])
            while stack:
                x = stack.pop()
                for p in T.parentlabels[x]:
                    if p not in anc:
                        anc.add(p)
                        if p not in ls:
                            stack.append(p)
            s2 = s.copy()
            s2.opq |= 4
            if anc & ls:
                k = s2.new(anc & ls, exact=s.g[m][4])
                out.append((some(('n', k)), s2))
            if T.root in anc and T.root not in ls or T.root in s.g[m][0]:
                s4 = s.copy()
                s4.opq |= 4
                out.append((NONE if s.g[m][4] else QNONE, s4))
        return out
    @model(PN + 'search')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        ls = nodeset(st, a[1])
        if n is None or ls is None:
            return [(TOP, st)]
        out = []
        for b, s in split(st, n, frozenset(l for l in ip.gr.reachable if is_leaf(l))):
            if b[1]:
                ip.oblig(f, bb, 'search on leaf', 'undecided' if tainted(b) else 'alarm', 'search is called on a leaf: %s' % show(s.g[n][0]), s)
                continue
            ip.oblig(f, bb, 'search on leaf', 'ok')
            d = set()
            for l in s.g[n][0]:
                d |= ip.gr.desc[l] | {l}
            out.append((('it', 'search', frozenset(d & ls), s.g[n][4]), s))
        return out
    def anyleaf(exact, opt):
        def m(f, bb, c, a, st):
            s = st.copy()
            s.opq |= 4
            k = s.new(ip.gr.leaves, exact=exact)
            if not opt:
                return [(('n', k), s)]
            return [(some(('n', k)), s), (QNONE, st)]
        return m
    M[PN + 'previous_leaf'] = anyleaf(False, True)
    M[PN + 'next_leaf'] = anyleaf(False, True)
    M['parsa_python::PyTree::leaf_by_position'] = anyleaf(True, False)
    @model('parsa_python::PyTree::node_by_index')
    def _(f, bb, c, a, st):
        return [(('n', topnode(st)), st)]
    @model('parsa_python::PyTree::root_node')
    def _(f, bb, c, a, st):
        st.opq |= 4
        k = st.new([T.root], parent=-1)
        return [(('n', k), st)]
    @model('parsa_python::PyTree::nodes')
    def _(f, bb, c, a, st):
        return [(('it', 'nodes'), st)]
    @model(PN + 'last_leaf_in_subtree')
    def _(f, bb, c, a, st):
        n = node(st, a[0])
        if n is None:
            st.opq |= 4
            return [(('n', st.new(ip.gr.leaves, exact=False)), st)]
        out = []
        leafs = frozenset(l for l in ip.gr.reachable if is_leaf(l))
        for b, s in split(st, n, leafs):
            if b[1]:
                out.append((('n', n), s))
            else:
                d = set()
                for l in s.g[n][0]:
                    d |= ip.gr.last[l]
                s.opq |= 4
                k = s.new(d, exact=s.g[n][4])
                out.append((('n', k), s))
        return out
    # --- equality
    def code_eq(st, n, text):
        """node code == text"""
        labels, exact = st.g[n][0], st.g[n][4]
        if len(labels) == 1:
            (l,) = labels
            if not is_leaf(l) and l[0] == 'N' and all(x[0] == 'K' for _, ls in ip.gr.dfa[l].out[0] for x in ls) and not ip.gr.desc[l] - frozenset(x for x in ip.gr.desc[l] if x[0] == 'K'):
                out = []
                for c, s in T.first_after(st, n, None):
                    if c is None or c == 'q':
                        continue
                    for b, s2 in split(s, c, frozenset([('K', text)])):
                        if not b[1]:
                            if ' ' in text:
                                for c2, s3 in T.first_after(s2, n, c):
                                    out.append((B(0, c2 is not None), s3))
                                    if c2 is not None:
                                        out.append((B(1, True), s3.copy()))
                            else:
                                out.append((b, s2))
                            continue
                        for c2, s3 in T.first_after(s2, n, c):
                            out.append((B(1 if c2 is None else 0, not exact), s3))
                return out
        kw = frozenset([('K', text), ('EK', text)])
        may = set()
        for l in labels:
            if l in kw:
                may.add(l)
            elif l[0] in ('T', 'ET'):
                if lexes_as(l[1], text):
                    may.add(l)
            elif not is_leaf(l):
                sl = ip.gr.single[l]
                if ('K', text) in sl or any(x[0] == 'T' and lexes_as(x[1], text) for x in sl) or l[0] == 'EN':
                    may.add(l)
        soft = bool(may - kw)
        out = []
        if may:
            s = st.copy()
            if T.setl(s, n, frozenset(may)):
                out.append((B(1, soft or not exact), s))
        rest = labels - kw
        if rest:
            s = st.copy()
            if T.setl(s, n, rest):
                out.append((B(0, not exact), s))
        return out
    def texts(st, n):
        """the source text of n where the grammar fixes it -> [(text | None, st)]"""
        labels, exact = st.g[n][0], st.g[n][4]
        if not exact or len(labels) > MANY:
            return [(None, st)]
        if any(not is_leaf(l) and ip.gr.desc[l] - frozenset(x for x in ip.gr.desc[l] if x[0] == 'K') for l in labels):
            return [(None, st)]
        out = []
        for s in T.single(st, n) or []:
            (l,) = s.g[n][0]
            if is_leaf(l):
                out.append((l[1] if l[0] in ('K', 'EK') else None, s))
                continue
            for c, s2 in T.first_after(s, n, None):
                if c is None or c == 'q':
                    out.append((None, s2))
                    continue
                for c2, s3 in T.first_after(s2, n, c):
                    if c2 is not None:
                        out.append((None, s3))
                        continue
                    out += texts(s3, c)
        return out or [(None, st)]
    @model('core::str::<impl str>::as_bytes')
    def _(f, bb, c, a, st):
        v = a[0]
        while v[0] in ('r', 'rv'):
            v = ip.deref(st, v)
        return [(v if v[0] in ('code', 's') else TOP, st)]
    def byte_at(f, bb, v, i, st):
        while v[0] in ('r', 'rv'):
            v = ip.deref(st, v)
        r = [(v[1], st)] if v[0] == 's' else texts(st, v[1]) if v[0] == 'code' else [(None, st)]
        out = []
        for t, s in r:
            if t is None:
                out.append((TOP, s))
                continue
            b = t.encode()
            out.append((some(('rv', I(b[i]))) if i < len(b) else NONE, s))
        return out
    @model('core::slice::<impl [T]>::first')
    def _(f, bb, c, a, st):
        return byte_at(f, bb, a[0], 0, st)
    @model('core::slice::<impl [T]>::get')
    def _(f, bb, c, a, st):
        return byte_at(f, bb, a[0], a[1][1], st) if a[1][0] == 'i' else [(TOP, st)]
    def eqv(f, st, x, y):
        for _ in range(3):
            if x[0] in ('r', 'rv'):
                x = ip.deref(st, x)
            if y[0] in ('r', 'rv'):
                y = ip.deref(st, y)
        if x[0] == 'nt' or y[0] == 'nt':
            if y[0] == 'nt' and x[0] != 'nt':
                x, y = y, x
            ls = ip.label_of(y)
            if ls is not None:
                return split(st, x[1], ls)
        if x[0] == 'nk' or y[0] == 'nk':
            if y[0] == 'nk' and x[0] != 'nk':
                x, y = y, x
            if y[0] == 'a' and y[1] in (NTK, TTK):
                name = ip.c.adts[y[1]]['v'][y[2]]['n']
                cls = ('N', 'EN') if y[1] == NTK else ('T', 'ET')
                return split(st, x[1], frozenset((k, name) for k in cls))
        if x[0] == 'code' or y[0] == 'code':
            if y[0] == 'code' and x[0] != 'code':
                x, y = y, x
            if y[0] == 's':
                return code_eq(st, x[1], y[1])
        if x[0] == 's' and y[0] == 's':
            return [(B(x[1] == y[1]), st)]
        if x[0] == 'i' and y[0] == 'i':
            return [(B(x[1] == y[1], len(x) > 2 or len(y) > 2), st)]
        if x[0] == 'a' and y[0] == 'a' and x[1] == y[1] and x[2] != y[2]:
            return [(B(0), st)]
        if x[0] == 'a' and y[0] == 'a' and x[1] == y[1] and not x[3] and not y[3]:
            return [(B(1), st)]
        if x[0] == 'a' and y[0] == 'a' and x[1] == y[1] and x[2] == y[2] and len(x[3]) == 1:
            return eqv(f, st, x[3][0], y[3][0])
        return [(TOP, st)]
    @model('core::cmp::PartialEq::eq')
    def _(f, bb, c, a, st):
        return eqv(f, st, a[0], a[1])
    @model('core::cmp::PartialEq::ne')
    def _(f, bb, c, a, st):
        return [((('i', 1-v[1]) + v[2:] if v[0] == 'i' else v), s) for v, s in eqv(f, st, a[0], a[1])]
    for nm in ("<parsa_python::PyNodeType as core::cmp::PartialEq>::eq",):
        M[nm] = M['core::cmp::PartialEq::eq']
    # --- option / result
    O = 'core::option::Option::<T>::'
    def optmodel(name):
        return model(O + name)
    def need_some(kind):
        def m(f, bb, c, a, st):
            v = a[0]
            if is_some(v):
                ip.oblig(f, bb, kind, 'ok')
                return [(v[3][0], st)]
            if is_none(v):
                ip.oblig(f, bb, kind, 'undecided' if tainted(v) else 'alarm', 'None is unwrapped', st)
                return []
            ip.oblig(f, bb, kind, 'undecided')
            return [(TOP, st)]
        return m
    M[O + 'unwrap'] = need_some('unwrap')
    M[O + 'expect'] = need_some('expect')
    R = 'core::result::Result::<T, E>::'
    def need_ok(f, bb, c, a, st):
        v = a[0]
        if v[0] == 'a' and v[1] == RES:
            if v[2] == 0:
                ip.oblig(f, bb, 'result unwrap', 'ok')
                return [(v[3][0], st)]
            ip.oblig(f, bb, 'result unwrap', 'undecided' if tainted(v) else 'alarm', 'Err is unwrapped', st)
            return []
        ip.oblig(f, bb, 'result unwrap', 'undecided')
        return [(TOP, st)]
    M[R + 'unwrap'] = M[R + 'expect'] = need_ok
    def qb(v, b):
        return B(b, tainted(v))
    @optmodel('is_some')
    def _(f, bb, c, a, st):
        v = ip.deref(st, a[0])
        return [(qb(v, v[2] == 1) if v[0] == 'a' else TOP, st)]
    @optmodel('is_none')
    def _(f, bb, c, a, st):
        v = ip.deref(st, a[0])
        return [(qb(v, v[2] == 0) if v[0] == 'a' else TOP, st)]
    @optmodel('as_ref')
    def _(f, bb, c, a, st):
        r = a[0]
        v = ip.deref(st, r)
        if is_some(v):
            if r[0] == 'r':
                return [(some(('r', r[1], r[2] + (('f', 0),))), st)]
            return [(some(('rv', v[3][0])), st)]
        return [(v if is_none(v) else TOP, st)]
    M[O + 'as_mut'] = M[O + 'as_ref']
    @model('core::option::Option::<&T>::copied', 'core::option::Option::<&T>::cloned')
    def _(f, bb, c, a, st):
        v = a[0]
        if is_some(v):
            return [(some(ip.deref(st, v[3][0])), st)]
        return [(v if is_none(v) else TOP, st)]
    @optmodel('take')
    def _(f, bb, c, a, st):
        v = ip.deref(st, a[0])
        if a[0][0] == 'r':
            ip.store(st, a[0][1], a[0][2], NONE)
        return [(v, st)]
    def each(st, v, fsome, fnone):
        """apply on the cases of an option value"""
        if is_some(v):
            return fsome(v[3][0], st, False)
        if is_none(v):
            return fnone(st, v)
        s2 = st.copy()
        return fnone(st, QNONE) + fsome(TOP, s2, True)
    @optmodel('map')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(some(r), s2) for r, _, s2 in ip.call_value(f, bb, a[1], [x], s)], lambda s, v: [(v, s)])
    @optmodel('and_then')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(r, s2) for r, _, s2 in ip.call_value(f, bb, a[1], [x], s)], lambda s, v: [(v, s)])
    @optmodel('is_some_and')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(r, s2) for r, _, s2 in ip.call_value(f, bb, a[1], [x], s)], lambda s, v: [(B(0, tainted(v)), s)])
    @optmodel('is_none_or')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(r, s2) for r, _, s2 in ip.call_value(f, bb, a[1], [x], s)], lambda s, v: [(B(1, tainted(v)), s)])
    @optmodel('map_or')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(r, s2) for r, _, s2 in ip.call_value(f, bb, a[2], [x], s)], lambda s, v: [(a[1], s)])
    @optmodel('map_or_else')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(r, s2) for r, _, s2 in ip.call_value(f, bb, a[2], [x], s)], lambda s, v: [(r, s2) for r, _, s2 in ip.call_value(f, bb, a[1], [], s)])
    @optmodel('filter')
    def _(f, bb, c, a, st):
        def fs(x, s, q):
            out = []
            for r, _, s2 in ip.call_value(f, bb, a[1], [('rv', x)], s):
                if r[0] == 'i':
                    out.append((some(x) if r[1] else (QNONE if len(r) > 2 or q else NONE), s2))
                else:
                    out += [(some(x), s2), (QNONE, s2.copy())]
            return out
        return each(st, a[0], fs, lambda s, v: [(v, s)])
    @optmodel('unwrap_or')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(x, s)], lambda s, v: [(a[1], s)])
    @optmodel('unwrap_or_else')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(x, s)], lambda s, v: [(r, s2) for r, _, s2 in ip.call_value(f, bb, a[1], [], s)])
    @optmodel('or_else')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(some(x), s)], lambda s, v: [(r, s2) for r, _, s2 in ip.call_value(f, bb, a[1], [], s)])
    @optmodel('or')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(some(x), s)], lambda s, v: [(a[1], s)])
    @optmodel('ok_or')
    def _(f, bb, c, a, st):
        return each(st, a[0], lambda x, s, q: [(('a', RES, 0, (x,)), s)], lambda s, v: [(('a', RES, 1, (a[1],)) + (('q',) if tainted(v) else ()), s)])
    @model('core::bool::<impl bool>::then')
    def _(f, bb, c, a, st):
        v = a[0]
        if v[0] == 'i':
            if v[1]:
                return [(some(r), s) for r, _, s in ip.call_value(f, bb, a[1], [], st)]
            return [(QNONE if len(v) > 2 else NONE, st)]
        s2 = st.copy()
        return [(QNONE, st)] + [(some(r), s) for r, _, s in ip.call_value(f, bb, a[1], [], s2)]
    @model('core::bool::<impl bool>::then_some')
    def _(f, bb, c, a, st):
        v = a[0]
        if v[0] == 'i':
            return [(some(a[1]) if v[1] else (QNONE if len(v) > 2 else NONE), st)]
        return [(QNONE, st), (some(a[1]), st.copy())]
    @model('core::ops::try_trait::Try::branch')
    def _(f, bb, c, a, st):
        v = a[0]
        if v[0] == 'a' and v[1] == OPT:
            if v[2] == 1:
                return [(('a', CF, 0, v[3]), st)]
            return [(('a', CF, 1, (v,)) + (('q',) if tainted(v) else ()), st)]
        if v[0] == 'a' and v[1] == RES:
            if v[2] == 0:
                return [(('a', CF, 0, v[3]), st)]
            return [(('a', CF, 1, (v,)) + (('q',) if tainted(v) else ()), st)]
        return [(TOP, st)]
    @model('core::ops::try_trait::FromResidual::from_residual')
    def _(f, bb, c, a, st):
        return [(a[0], st)]
    @model('core::clone::Clone::clone')
    def _(f, bb, c, a, st):
        return [(ip.deref(st, a[0]), st)]
    @model('core::convert::Into::into', 'core::convert::From::from')
    def _(f, bb, c, a, st):
        return None
    @model('core::hint::must_use', 'core::hint::black_box')
    def _(f, bb, c, a, st):
        return [(a[0], st)]
    @model('core::mem::replace')
    def _(f, bb, c, a, st):
        v = ip.deref(st, a[0])
        if a[0][0] == 'r':
            ip.store(st, a[0][1], a[0][2], a[1])
        return [(v, st)]
    @model('core::mem::take')
    def _(f, bb, c, a, st):
        v = ip.deref(st, a[0])
        if a[0][0] == 'r':
            ip.store(st, a[0][1], a[0][2], TOP)
        return [(v, st)]
    @model('core::slice::<impl [T]>::iter')
    def _(f, bb, c, a, st):
        v = ip.deref(st, a[0])
        if v[0] == 'arr':
            return [(('it', 'arr', v[1], 0, True), st)]
        return [(TOP, st)]
    @model('core::slice::<impl [T]>::contains')
    def _(f, bb, c, a, st):
        v = ip.deref(st, a[0])
        if v[0] != 'arr':
            return [(TOP, st)]
        out = []
        cur = [st]
        for x in v[1]:
            nx = []
            for s in cur:
                for b, s2 in eqv(f, s, x, a[1]):
                    if b[0] != 'i':
                        return [(TOP, st)]
                    if b[1]:
                        out.append((b, s2))
                    else:
                        nx.append(s2)
            cur = nx
        return out + [(B(0), s) for s in cur]
    @model('core::iter::sources::once::once')
    def _(f, bb, c, a, st):
        return [(('it', 'once', a[0]), st)]
    @model('core::iter::sources::empty::empty')
    def _(f, bb, c, a, st):
        return [(('it', 'empty'), st)]
    @model('core::iter::sources::from_fn::from_fn')
    def _(f, bb, c, a, st):
        return [(('it', 'from_fn', a[0]), st)]
    @model('core::iter::adapters::peekable::Peekable::<I>::peek')
    def _(f, bb, c, a, st):
        it = ip.deref(st, a[0])
        if it[0] != 'it' or it[1] != 'peek' or a[0][0] != 'r':
            return [(TOP, st)]
        if it[3] != I(0):
            v = it[3]
            return [(some(('rv', v[3][0])) if is_some(v) else v, st)]
        out = []
        for v, i2, s in ip.it_next(f, bb, it[2], st):
            ip.store(s, a[0][1], a[0][2], ('it', 'peek', i2, v) if v[0] == 'a' else TOP)
            out.append((some(('rv', v[3][0])) if is_some(v) else v, s))
        return out
    @model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
    def _(f, bb, c, a, st):
        return [(TOP, st)]
    @model('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
    def _(f, bb, c, a, st):
        fv, args = a[0], a[1]
        if args[0] != 't':
            return [(TOP, st)]
        return [(r, s) for r, _, s in ip.call_value(f, bb, fv, list(args[1]), st)]
    @model('alloc::boxed::Box::<T>::new')
    def _(f, bb, c, a, st):
        return [(('box', a[0]), st)]
    def guard(m):
        # nothing may be concluded from what happens to a node the analysis lost track of
        def g(f, bb, c, a, st):
            if a and node(st, a[0]) is None:
                st.opq |= 2
            return m(f, bb, c, a, st)
        return g
    for k in list(M):
        if k.startswith(PN):
            M[k] = guard(M[k])
    return M

def lexes_as(term, text):
    if term == 'Name':
        return text.isidentifier()
    if term == 'Number':
        return text[:1].isdigit() or text[:1] == '.' and text[1:2].isdigit()
    if term in ('String', 'Bytes', 'FStringStart', 'FStringEnd', 'TStringStart'):
        return '"' in text or "'" in text
    if term in ('Newline', 'Indent', 'Dedent', 'Endmarker'):
        return not text.strip()
    return True

def show(labels, n=6):
    ls = sorted(labels)
    t = ', '.join('%s%s' % ({'N': '', 'EN': 'Error ', 'T': '', 'ET': 'Error ', 'K': '', 'EK': 'Error '}[l[0]], repr(l[1]) if l[0] in ('K', 'EK') else l[1]) for l in ls[:n])
    return t + (' ...' if len(ls) > n else '')
def shownode(ip, st, n):
    lb, p, k, a, e = st.g[n]
    t = show(lb)
    if k:
        ents, gaps = k
        parts = []
        for i, x in enumerate(ents):
            if gaps[i]:
                parts.append('...')
            parts.append(show(st.g[x[0]][0], 3))
        if gaps[-1]:
            parts.append('...')
        t += ' -> ' + ' '.join('<%s>' % x if x != '...' else x for x in parts)
    return t
