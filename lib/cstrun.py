"""Entry points of parsa_python_cst: every public function whose receiver/arguments are syntax tree
wrappers is interpreted on every tree the grammar allows."""
import time, json, os
import facts, grammar
from interp import *
from interp import Interp, Stats, strip
from cst import *

CR = 'parsa_python_cst'
import cst as C
LIMIT = {"quick": 20000, "thorough": 80000}

def splitargs(t):
    out, d, cur = [], 0, ''
    for ch in t:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

class Entries:
    def __init__(self):
        self.c = facts.load(CR)
        self.gr = grammar.load()
        self.labels = {}
        self.wrappers = {}
        pre = Interp(self.c, self.gr)
        self.byself = {}
        for f in self.c.list:
            if f['krate'] == CR and f['iself']:
                self.byself.setdefault(strip(f['iself']), []).append(f)
        for p, a in sorted(self.c.adts.items()):
            if not a['local'] or a['kind'] != 'struct':
                continue
            fl = a['v'][0]['f']
            if len(fl) == 1 and fl[0][1].startswith('parsa_python::PyNode<'):
                new = [f for f in self.byself.get(p, ()) if f['name'] == 'new' and not f['itrait'] and f['argc'] == 1]
                if new:
                    st = St({}, {}, {}, 0)
                    n = st.new(self.gr.reachable)
                    ls = set()
                    for ret, s in pre.call_fn(new[0]['key'], [('n', n)], st):
                        if ret[0] == 'a' and ret[3] and ret[3][0][0] == 'n':
                            ls |= s.g[ret[3][0][1]][0]
                    self.labels[p] = frozenset(ls)
                else:
                    self.labels[p] = None
        self.ip = Interp(self.c, self.gr)
        spec = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'cst_contracts.json')))
        lab = lambda req: {k: frozenset(tuple(x.split(':', 1)) for x in v) for k, v in req.items()}
        self.shapes = {}
        for w, req in spec['shape'].items():
            p = CR + '::' + w
            if p not in self.labels:
                continue
            self.shapes[p] = lab(req)
            for f in self.byself.get(p, ()):
                if f['name'] == 'new' and not f['itrait']:
                    self.ip.shape[f['key']] = lab(req)
        for w, ls in spec['labels'].items():
            p = CR + '::' + w
            if self.labels.get(p):
                self.labels[p] = frozenset(l for l in self.labels[p] if '%s:%s' % l in ls or l[0] + ':*' in ls)
        self.requires = {k: lab(v) for k, v in spec['requires'].items()}
        self.skip = spec['not_an_entry']

    def values(self, ty, st, depth=0):
        """abstract values of a type (string) -> [(value, st)] or None when it carries no tree"""
        ty = ty.strip()
        if ty.startswith('&'):
            t = re.sub(r"^&('\w+ )?(mut )?", '', ty)
            r = self.values(t, st, depth)
            if r is None:
                return None
            out = []
            for v, s in r:
                c = ('arg', s.nxt, len(s.env))
                s.env[c] = v
                out.append((('r', ('l', c), ()), s))
            return out
        b = strip(ty)
        if b == 'parsa_python::PyNode':
            return None   # a raw node is private state: it only comes from inside the crate
        if b in self.labels:
            ls = self.labels[b]
            if not ls:
                return None
            n = st.new(ls)
            sts = [st]
            if b in self.shapes:
                sts = [s for ok, s in self.ip.require(st, n, self.shapes[b]) if ok]
            return [(('a', b, 0, (('n', n),)), s) for s in sts]
        m = re.match(r'^core::option::Option<(.*)>$', ty)
        if m:
            r = self.values(m.group(1), st.copy(), depth)
            if r is None:
                return None
            return [(NONE, st)] + [(some(v), s) for v, s in r]
        if ty.startswith('(') and ty.endswith(')'):
            parts = splitargs(ty[1:-1])
            return self.prod(parts, st, depth, lambda vs: ('t', tuple(vs)))
        a = self.c.adts.get(b)
        if a and a['local'] and depth < 3:
            if a['kind'] == 'enum':
                out = []
                for i, v in enumerate(a['v']):
                    r = self.prod([f[1] for f in v['f']], st.copy(), depth+1, lambda vs, i=i: ('a', b, i, tuple(vs)))
                    if r is None:
                        r = [(('a', b, i, tuple(TOP for _ in v['f'])), st.copy())]
                    out += r
                return out
            r = self.prod([f[1] for f in a['v'][0]['f']], st, depth+1, lambda vs: ('a', b, 0, tuple(vs)))
            return r
        return None

    def prod(self, tys, st, depth, mk):
        cur = [([], st)]
        anyv = False
        for t in tys:
            nx = []
            for vs, s in cur:
                r = self.values(t, s.copy(), depth)
                if r is None:
                    nx.append((vs + [TOP], s))
                else:
                    anyv = True
                    nx += [(vs + [v], s2) for v, s2 in r]
            cur = nx
        if tys and not anyv:
            return None
        return [(mk(vs), s) for vs, s in cur]

    def entries(self):
        for f in self.c.list:
            if f['krate'] != CR or f['vis'] != 'pub' or f['name'] == 'new' and f['argc'] == 1 and strip(f['iself'] or '') in self.labels:
                continue
            if f['itrait'] and f['name'] in ('fmt', 'eq', 'hash', 'clone'):
                continue
            if self.fname(f) in self.skip:
                continue
            ls = self.labels.get(strip(f['iself'] or ''))
            if f['name'] == 'search_interesting_nodes' and ls and all(grammar.is_leaf(l) for l in ls):
                continue
            yield f

    def fname(self, f):
        return (strip(f['iself']).rsplit('::', 1)[-1] + '::' if f['iself'] else '') + f['name']

    def run_entry(self, f):
        """-> list of (ret, st, argvals) or None if no tree argument"""
        tys = [self.c.tys[f['locals'][i+1][0]]['s'] for i in range(f['argc'])]
        r = self.prod(tys, St({}, {}, {}, 0), 0, lambda vs: vs)
        if r is None:
            if not any('parsa_python_cst::Tree' in t or 'PyTree' in t for t in tys):
                return None
            r = [([TOP]*len(tys), St({}, {}, {}, 0))]
        req = self.requires.get(self.fname(f))
        if req:
            r2 = []
            for vs, s in r:
                v = vs[0]
                while v[0] in ('r', 'rv'):
                    v = self.ip.deref(s, v)
                r2 += [(vs, s2) for ok, s2 in self.ip.require(s, v[3][0][1], req) if ok]
            r = r2
        out = []
        for vs, s in r:
            for ret, s2 in self.ip.call_fn(f['key'], vs, s):
                out.append((ret, s2, vs))
        return out

    def drive(self, f, ret, st, depth=0):
        """consume a returned iterator so that its elements are computed"""
        it = ret
        if it[0] == 'a' and it[1] == OPT:
            if it[2] == 1:
                self.drive(f, it[3][0], st, depth)
            return
        if it[0] == 't':
            for x in it[1]:
                self.drive(f, x, st.copy(), depth)
            return
        if it[0] == 'a' and it[1] not in self.ip.by_impl:
            if depth < 3 and it[1] != OPT:
                for x in it[3]:
                    self.drive(f, x, st.copy(), depth+1)
            return
        if it[0] not in ('it', 'a', 'box'):
            return
        try:
            self.ip.fold(f, 0, it, st, lambda a, x, s: [(UNIT, False, s)], UNIT)
        except Bail as e:
            self.ip.stats.bailed[f['key'] + ' (iterated)'] = str(e)

    def run_all(self, verbose=False):
        n = 0
        for f in self.entries():
            t0 = time.time()
            self.ip.total = 0
            C.Budget.used, C.Budget.limit = 0, self.limit
            try:
                C.Tick.start(90)
                r = self.run_entry(f)
                if r is not None:
                    seen = set()
                    for ret, s, vs in r:
                        k = self.ip.canon([ret], None, s)[0]
                        if k in seen:
                            continue
                        seen.add(k)
                        self.drive(f, ret, s)
            except (Bail, MemoryError) as e:
                C.Tick.stop()
                self.ip.stats.bailed[f['key']] = str(e)
                if verbose:
                    print('%.1fs BAIL %s %s' % (time.time()-t0, e, f['key']), flush=True)
                continue
            except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError, AssertionError) as e:
                C.Tick.stop()
                self.ip.stats.bailed[f['key']] = 'internal: %r' % (e,)
                continue
            C.Tick.stop()
            if r is None:
                continue
            n += 1
            dt = time.time()-t0
            if verbose and dt > 1:
                print('%.1fs %d %s (%d results)' % (dt, C.Budget.used, f['key'], len(r)), flush=True)
        return n

def _work(args):
    i, n = args
    e = _work.e
    mine = _work.es[i::n]
    e.entries = lambda: mine
    e.ip.stats = Stats()
    e.ip.memo = {}
    e.golden = {}
    cnt = e.run_all()
    s = e.ip.stats
    return cnt, s.obl, s.alarm, s.bailed, s.fns, s.states, s.calls, e.golden

class Result:
    pass

def run_parallel(tier='quick', hook=None, nproc=8, parts=48):
    """interpret every entry point, in a fixed partition (so that the outcome does not depend on scheduling)"""
    from multiprocessing import get_context
    e = Entries()
    e.limit = LIMIT[tier]
    e.hook = hook
    _work.e, _work.es = e, list(e.entries())
    with get_context('fork').Pool(nproc) as p:
        rs = p.map(_work, [(i, parts) for i in range(parts)], 1)
    r = Result()
    r.obl, r.alarm, r.bailed, r.fns, r.golden = {}, {}, {}, set(), {}
    rank = {'ok': 0, 'undecided': 1, 'alarm': 2}
    for c, o, a, b, f, st, ca, g in rs:
        for k, v in o.items():
            if k not in r.obl or rank[v] > rank[r.obl[k]]:
                r.obl[k] = v
        for k, v in a.items():
            r.alarm.setdefault(k, v)
        r.bailed.update(b)
        r.fns |= f
        r.golden.update(g)
    r.entries = sum(x[0] for x in rs)
    r.states = sum(x[5] for x in rs)
    r.calls = sum(x[6] for x in rs)
    r.e = e
    return r
