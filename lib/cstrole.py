"""Roles of the syntax tree accessors: which node/flag/iteration each accessor returns for which form of the
tree.  The reference (spec/cst_roles.json.gz) is a list of (partial tree, result) per accessor that covers
all trees.  A check interprets the current code starting from each reference tree and compares results by
node identity; nothing depends on how the accessor is written."""
import json, gzip, os, random, sys, time
import cstrun, grammar
import cst as C
from cst import *
from interp import *
from interp import Interp, Stats, strip, NODEK
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec', 'cst_roles.json.gz')
K = 3
CAP = 160       # outcomes kept per accessor
Q = ('?',)
TRUNC = []      # set while the reference is generated: cases beyond the limit are left out of it

def observe(ip, f, v, st, depth=0):
    """-> [(obs, st)]; an iteration is observed as far as the number of cases allows"""
    global K
    for K in (3, 2, 1):
        try:
            return observe_(ip, f, v, st.copy(), depth)
        except Bail as e:
            if K == 1:
                raise
            C.Budget.used = 0
            ip.inprog.clear()
            ip.stack.clear()
def observe_(ip, f, v, st, depth):
    k = v[0]
    if k in ('r', 'rv', 'box'):
        return observe_(ip, f, ip.deref(st, v), st, depth)
    if k == 'n' or k in ('x', 'code', 'nk', 'nt', 's'):
        return [(v, st)]
    if k == 'i':
        return [(v if len(v) == 2 else Q, st)]
    if k == 'e':
        return [(v, st)]
    if k in ('t', 'arr'):
        return prod(ip, f, v[1], st, depth, lambda o: ('t', tuple(o)))
    if k == 'a' and (v[1] not in ip.by_impl or v[1].startswith('core::ops::range::')):
        if len(v) > 4:
            return [(Q, st)]
        return prod(ip, f, v[3], st, depth, lambda o: ('a', v[1], v[2], tuple(o)))
    if k == 'it' or k == 'a':
        if depth > 2 or depth >= K:
            return [(Q, st)]
        out = []
        work = [((), v, st)]
        while work:
            els, it, s = work.pop()
            if len(els) == K:
                out.append((('seq', els, 'more'), s))
                continue
            nx = ip.it_next(f, 0, it, s)
            if TRUNC and len(nx) > 8:
                nx = mixed(nx, lambda x: x[0])[:8] if DIVERSE[0] else [nx[i*len(nx)//8] for i in range(8)]
                TRUNC[0] = True
            for o, it2, s2 in nx:
                if o[0] == 'a' and o[1] == OPT and len(o) == 4:
                    if o[2] == 0:
                        out.append((('seq', els, 'end'), s2))
                    else:
                        for ob, s3 in observe_(ip, f, o[3][0], s2.copy(), depth+1):
                            work.append((els + (ob,), it2, s3))
                else:
                    out.append((('seq', els, '?'), s2))
            if len(out) + len(work) > 400:
                if TRUNC and K == 1:
                    TRUNC[0] = True
                    return out + [(('seq', w[0], 'more'), w[2]) for w in work if len(w[0]) == K]
                raise Bail('observe')
        return out
    return [(Q, st)]

DIVERSE = [False]
def sig(o, d=0):
    """what kind of outcome it is: variants, numbers and texts, not which nodes"""
    k = o[0]
    if k == 'a':
        if o[1] == OPT:
            return (o[2],) + tuple(sig(x, d) for x in o[3])
        return (o[1],) if d > 1 else (o[1], o[2]) + tuple(sig(x, d+1) for x in o[3])
    if k == 't':
        return tuple(sig(x, d) for x in o[1])
    if k == 'seq':
        return (o[2],) + tuple(sig(x, d) for x in o[1])
    if k in ('i', 's'):
        return (k,) + tuple(o[1:2])
    return (k,)
def coarse(o, d=0):
    """the outermost variants and the texts only"""
    k = o[0]
    if k == 'a':
        if o[1] == OPT:
            return (o[2],) + tuple(coarse(x, d) for x in o[3])
        return ((o[1], o[2]) if d == 0 else ()) + tuple(y for y in (coarse(x, d+1) for x in o[3]) if y)
    if k in ('t', 'seq'):
        return (len(o[1]),) + tuple(o[2:3]) + tuple(coarse(x, d) for x in o[1])
    return (k,) + tuple(o[1:2]) if k in ('i', 's') else ()
def mixed(l, key=lambda x: x):
    """the elements in an order in which each kind comes early"""
    def rounds(l, kf):
        g = {}
        for x in l:
            g.setdefault(repr(kf(x)), []).append(x)
        return list(g.values())
    def deal(gs):
        out, n = [], 0
        while len(out) < sum(map(len, gs)):
            for x in gs:
                if n < len(x):
                    out.append(x[n])
            n += 1
        return out
    return deal([deal(rounds(x, lambda y: sig(key(y)))) for x in rounds(l, lambda y: coarse(key(y)))])

def prod(ip, f, vs, st, depth, mk):
    cur = [((), st)]
    for v in vs:
        nx = []
        for o, s in cur:
            nx += [(o + (ob,), s2) for ob, s2 in observe_(ip, f, v, s, depth)]
        cur = nx
        if len(cur) > 400:
            raise Bail('observe')
    return [(mk(o), s) for o, s in cur]

def useful(o):
    k = o[0]
    if k == '?':
        return False
    if k == 'a':
        return o[1] != OPT or o[2] == 0 or any(useful(x) for x in o[3])
    if k == 't':
        return any(useful(x) for x in o[1])
    if k == 'seq':
        return o[2] != '?' or any(useful(x) for x in o[1])
    return True

# ---------------------------------------------------------------- serialisation
def lab(l):
    return l[0] + ':' + l[1]
def unlab(s):
    a, b = s.split(':', 1)
    return (a, b)

class Pool:
    def __init__(self):
        self.sets, self.ix = [], {}
    def add(self, fs):
        if fs not in self.ix:
            self.ix[fs] = len(self.sets)
            self.sets.append(fs)
        return self.ix[fs]

def enc(x):
    if isinstance(x, tuple):
        return [enc(y) for y in x]
    return x
def dec(x):
    if isinstance(x, list):
        return tuple(dec(y) for y in x)
    return x

def outcome_of(ip, args, obs, st):
    key, nm, order, cl = ip.canon(list(args) + [obs_as_value(obs)], None, st)
    vals, cells, recs = key
    return (vals[:-1], value_as_obs(vals[-1]), cells, recs)
def obs_as_value(o):
    # the observation language nests 'seq' and '?': wrap so that canon renames nodes inside
    if o[0] == 'seq':
        return ('t', (('s', '#seq'), ('s', o[2])) + tuple(obs_as_value(x) for x in o[1]))
    if o[0] == '?':
        return ('s', '#?')
    if o[0] == 'a':
        return ('a', o[1], o[2], tuple(obs_as_value(x) for x in o[3]))
    if o[0] == 't':
        return ('t', tuple(obs_as_value(x) for x in o[1]))
    return o
def value_as_obs(v):
    if v == ('s', '#?'):
        return Q
    if v[0] == 't' and v[1] and v[1][0] == ('s', '#seq'):
        return ('seq', tuple(value_as_obs(x) for x in v[1][2:]), v[1][1][1])
    if v[0] == 'a':
        return ('a', v[1], v[2], tuple(value_as_obs(x) for x in v[3]))
    if v[0] == 't':
        return ('t', tuple(value_as_obs(x) for x in v[1]))
    return v

def fname(f):
    return f['key']

def over():
    return C.Tick.until is not None and time.time() > C.Tick.until

def collect(e, f):
    """outcomes of one accessor on all trees: (list, complete)"""
    ip = e.ip
    ip.cut = False
    r = e.run_entry(f)
    if r is None:
        return None
    outs, seen, complete = [], set(), True
    if any(s.opq & 6 for _, s, _ in r):
        ip.memo, ip.bounded = {}, True
        C.Budget.used = ip.total = 0
        try:
            r = r + e.run_entry(f)
        except Bail:
            pass
        finally:
            ip.memo, ip.bounded = {}, False
            ip.inprog.clear()
            ip.stack.clear()
            C.Budget.used = ip.total = 0
        complete = False
    for ret, s, vs in r[:400]:
        obl, got = [], 0
        if over():
            if DIVERSE[0]:
                raise Bail('time')
            complete = False
            break
        for tr in (0, 1, 2, 3, 4) if DIVERSE[0] else (0, 1):
            if got == 3 and not (DIVERSE[0] and tr > 1 and complete is False):
                break
            C.Budget.used, C.Budget.limit = 0, 4000
            TRUNC[:] = [complete is None] if tr else []
            ip.bounded, ip.memo = bool(tr), {}
            ip.rng = random.Random(tr) if tr > 1 else None
            try:
                x = observe(ip, f, ret, s)
                if not tr or tr > 1 or K > got:
                    obl = obl + x
                got = max(got, K) if DIVERSE[0] else 3
            except Bail:
                ip.inprog.clear()
                ip.stack.clear()
                complete = False
            finally:
                ip.bounded, ip.memo, ip.rng = False, {}, None
        for obs, s2 in obl:
            if s2.opq & 6 or not useful(obs):
                complete = False
                continue
            o = outcome_of(ip, vs, obs, s2)
            if o not in seen:
                seen.add(o)
                outs.append(o)
    outs.sort(key=lambda o: (len(o[3]), repr(o[1])))
    C.Budget.used, C.Budget.limit = 0, e.limit
    TRUNC[:] = []
    n0 = len(outs)
    outs = (mixed(outs, lambda o: o[1]) if DIVERSE[0] else outs)[:3*CAP]
    keep = []
    C.Tick.start(30)
    for o in outs:
        if over():
            break
        c, d, u, part = compare(e, f, [o], frozenset(), 3000)
        if c and not d and not u and not part:
            keep.append(o)
        if len(keep) >= CAP:
            break
    outs = keep
    if len(outs) < n0:
        complete = False
    outs.sort(key=lambda o: (len(o[3]), repr(o[1])))
    return outs, complete

# ---------------------------------------------------------------- comparison
def related(st, a, b):
    """a is an ancestor of b or vice versa (in the explored tree)"""
    for x, y in ((a, b), (b, a)):
        n, d = x, 0
        while n not in (None, -1) and d < 40:
            if n == y:
                return True
            n = st.g[n][1]
            d += 1
        if n is None:      # not explored to the top: unknown
            pass
    return False

def nodes_in(o):
    if o[0] in NODEK:
        return {o[1]}
    if o[0] == 'e':
        return set().union(*[nodes_in(x) for x in o[2]])
    return set()

def differ(ip, st, g, n):
    """a definite difference between the reference observation g and the new one n, or None"""
    if g[0] == '?' or n[0] == '?':
        return None
    if g[0] == 'seq' and n[0] == 'seq':
        for x, y in zip(g[1], n[1]):
            if x[0] == '?' or y[0] == '?':
                continue
            d = differ(ip, st, x, y)
            if d:
                return d
        if len(g[1]) > len(n[1]) and n[2] == 'end':
            return 'iteration ends after %d elements instead of %d%s' % (len(n[1]), len(g[1]), '' if g[2] == 'end' else ' or more')
        if len(n[1]) > len(g[1]) and g[2] == 'end':
            return 'iteration yields %s after the expected end' % showobs(ip, st, n[1][len(g[1])])
        return None
    if g[0] != n[0]:
        if {g[0], n[0]} <= {'e', 'x', 'i'} or {g[0], n[0]} <= {'code', 's', 'x'}:
            return None
        return None
    k = g[0]
    if k == 'i':
        return None if g[1] == n[1] else 'returns %s instead of %s' % (n[1], g[1])
    if k == 's':
        return None if g[1] == n[1] else 'returns %r instead of %r' % (n[1], g[1])
    if k in ('n', 'nt', 'nk'):
        if g[1] != n[1] and st.g[g[1]][4] and st.g[n[1]][4]:
            return 'returns %s instead of %s' % (showobs(ip, st, n), showobs(ip, st, g))
        return None
    if k in ('x', 'code'):
        if g == n:
            return None
        if k == 'x' and g[2] != n[2]:
            if g[1] == n[1] and 'index' in (g[2], n[2]):
                return 'returns the %s instead of the %s' % (n[2], g[2])
            if g[1] == n[1] and {g[2], n[2]} == {'start', 'end'} and not zero_width(st, g[1]):
                return 'returns the %s instead of the %s of %s' % (n[2], g[2], showobs(ip, st, ('n', g[1])))
            return None
        if not (st.g[g[1]][4] and st.g[n[1]][4]):
            return None
        if k == 'x' and g[2] == 'index':
            return 'returns the index of %s instead of %s' % (showobs(ip, st, ('n', n[1])), showobs(ip, st, ('n', g[1])))
        if related(st, g[1], n[1]) or zero_width(st, g[1]) or zero_width(st, n[1]):
            return None
        if siblings(st, g[1], n[1]):
            return 'returns the %s of %s instead of %s' % (g[2] if k == 'x' else 'text', showobs(ip, st, ('n', n[1])), showobs(ip, st, ('n', g[1])))
        return None
    if k == 'e':
        if g[1] == n[1] and len(g[2]) == len(n[2]) and all(x[0] == y[0] for x, y in zip(g[2], n[2])):
            ds = [differ(ip, st, x, y) for x, y in zip(g[2], n[2])]
            if sum(1 for d in ds if d) == 1 and all(x == y for x, y, d in zip(g[2], n[2], ds) if not d):
                return [d for d in ds if d][0]
        return None
    if k == 'a':
        if g[1] != n[1]:
            return None
        if g[2] != n[2]:
            return 'returns %s instead of %s' % (showobs(ip, st, n), showobs(ip, st, g))
        for x, y in zip(g[3], n[3]):
            d = differ(ip, st, x, y)
            if d:
                return d
        return None
    if k == 't':
        if len(g[1]) != len(n[1]):
            return None
        for x, y in zip(g[1], n[1]):
            d = differ(ip, st, x, y)
            if d:
                return d
        return None
    return None

def siblings(st, a, b):
    pa, pb = st.g[a][1], st.g[b][1]
    return pa is not None and pa == pb

def zero_width(st, n):
    return any(l[0] in ('T', 'ET') and l[1] in ('Newline', 'Indent', 'Dedent', 'Endmarker', 'ErrorDedent') for l in st.g[n][0])

def showobs(ip, st, o):
    k = o[0]
    if k == 'n':
        p = st.g[o[1]][1]
        s = show(st.g[o[1]][0])
        if p not in (None, -1):
            i = ip.t.find(st, p, o[1])
            s += ' (child of %s%s)' % (show(st.g[p][0]), '' if i is None else ', known child #%d' % i)
        return s
    if k == 'a':
        ad = ip.c.adts.get(o[1])
        n = ad['v'][o[2]]['n'] if ad and o[2] < len(ad['v']) else str(o[2])
        return '%s(%s)' % (n, ', '.join(showobs(ip, st, x) for x in o[3]))
    if k == 't':
        return '(%s)' % ', '.join(showobs(ip, st, x) for x in o[1])
    if k in ('x', 'nk', 'nt', 'code'):
        return '%s of %s' % (o[2] if k == 'x' else 'kind' if k != 'code' else 'text', showobs(ip, st, ('n', o[1])))
    return str(o)

def compare(e, f, outs, bad_labels, limit=None):
    """-> (checked, [(difference, tree text)], undecided)"""
    ip = e.ip
    checked, diffs, und, part = 0, [], 0, 0
    t0 = time.time()
    for args, obs, cells, recs in outs:
        if any(l & bad_labels for l, *_ in recs if len(l) < 200 and any(True for _ in l)) and any((l & bad_labels) and kk is not None for l, p, kk, a, x in recs):
            und += 1
            continue
        C.Budget.used, C.Budget.limit = 0, limit or e.limit
        ip.total = 0
        st = St({}, dict(enumerate(cells)), dict(enumerate(recs)), len(recs), 0)
        if time.time() - t0 > 60 and limit is None:
            und += 1
            continue
        try:
            if limit is None:
                C.Tick.start(15)
            rs = ip.call_fn(f['key'], list(args), st)
            ok = 0
            for ret, s in rs:
                if s.opq & 6:
                    part += 1
                    continue
                for ob, s2 in observe(ip, f, ret, s):
                    if s2.opq & 6:
                        part += 1
                        continue
                    ok = 1
                    ip.cur = s2
                    d = differ(ip, s2, obs, ob)
                    if d:
                        diffs.append((d, '; '.join(shownode(ip, s2, n) for n in sorted(s2.g)[:4])))
            if limit is None:
                C.Tick.stop()
            if ok:
                checked += 1
            else:
                und += 1
        except (Bail, KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError, MemoryError) as ex:
            if limit is None:
                C.Tick.stop()
            und += 1
            if C.rss() > 1000:
                ip.memo = {}
            ip.inprog.clear()
            ip.stack.clear()
        if len(diffs) > 3:
            break
    return checked, diffs, und, part

# ---------------------------------------------------------------- drivers
def _mk(tier='quick'):
    e = cstrun.Entries()
    e.limit = cstrun.LIMIT[tier]
    e.ip.maxd = 30
    return e

def _gen(args):
    i, n = args
    e, es = _gen.e, _gen.es
    out = {}
    for f in es[i::n]:
        e.ip.memo = {}
        e.ip.stats = Stats()
        r = None
        for DIVERSE[0] in (True, False):
            C.Budget.used, C.Budget.limit, e.ip.total = 0, e.limit, 0
            e.ip.memo = {}
            e.ip.inprog.clear()
            e.ip.stack.clear()
            TRUNC[:] = []
            C.Tick.start(GENTIME if DIVERSE[0] else 60)
            try:
                r = collect(e, f)
                break
            except (Bail, KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError, MemoryError) as ex:
                r = (None, repr(ex))
            finally:
                C.Tick.stop()
        if not DIVERSE[0]:
            print('plain', f['key'], r and r[0] is None, flush=True)
        e.ip.memo = {}
        if r is not None:
            out[f['key']] = r
    return out

def parallel(fn, e, es, n=64, procs=8):
    from multiprocessing import get_context
    fn.e, fn.es = e, es
    with get_context('fork').Pool(procs) as p:
        return p.map(fn, [(i, n) for i in range(n)], 1)

GENTIME = 30
def generate(only=()):
    """only: the other accessors keep their entries"""
    global GENTIME
    e = _mk('thorough')
    es = list(e.entries())
    res = {}
    if only:
        GENTIME = 180
        es = [f for f in es if any(o in f['key'] for o in only)]
        old = json.loads(gzip.open(SPEC).read())['entries']
        res = {k: (rows, old[k][0]) for k, rows in load_spec(e.ip.gr)[0].items()}
    for r in parallel(_gen, e, es):
        res.update((k, x) for k, x in r.items() if x[0] or k not in res)
    pool = Pool()
    ents = {}
    for k, (outs, complete) in sorted(res.items()):
        if not outs:
            continue
        rows = []
        for args, obs, cells, recs in outs:
            rows.append([enc(args), enc(obs), enc(cells), [[pool.add(l), p, enc(kk) if kk is not None else None, a, x] for l, p, kk, a, x in recs]])
        ents[k] = [complete is True, rows]
    gr = e.ip.gr
    d = {'sets': [sorted(lab(l) for l in s) for s in pool.sets], 'entries': ents, 'dfa': {lab(l): fp(gr, l) for l in gr.reachable if not grammar.is_leaf(l)},
         'leaves': sorted(lab(l) for l in gr.reachable if grammar.is_leaf(l))}
    with gzip.GzipFile(SPEC, 'wb', mtime=0) as fh:
        fh.write(json.dumps(d, separators=(',', ':')).encode())
    return res

def fp(gr, l):
    import hashlib
    d = gr.dfa[l]
    return hashlib.sha1(repr((d.n, sorted(d.acc), sorted((k, sorted(v)) for k, v in d.edges.items()))).encode()).hexdigest()[:12]

def load_spec(gr):
    d = json.loads(gzip.open(SPEC).read())
    sets = [frozenset(unlab(x) for x in s) for s in d['sets']]
    bad = {unlab(l) for l, h in d['dfa'].items() if unlab(l) not in gr.dfa or fp(gr, unlab(l)) != h}
    bad |= {unlab(l) for l in d['leaves'] if unlab(l) not in gr.reachable}
    ents = {}
    for k, (complete, rows) in d['entries'].items():
        ents[k] = [(dec(a), dec(o), dec(c), tuple((sets[l], p, dec(kk) if kk is not None else None, an, x) for l, p, kk, an, x in recs)) for a, o, c, recs in rows]
    return ents, frozenset(bad)

def _cmp(args):
    i, n = args
    e, es = _cmp.e, _cmp.es
    out = {}
    for f in es[i::n]:
        e.ip.memo = {}
        e.ip.stats = Stats()
        out[f['key']] = compare(e, f, _cmp.ents[f['key']], _cmp.bad)
    return out

def check(tier='quick', only=None):
    e = _mk(tier)
    ents, bad = load_spec(e.ip.gr)
    es = [e.c.fns[k] for k in sorted(ents) if k in e.c.fns and (only is None or only in k)]
    missing = [k for k in ents if k not in e.c.fns]
    _cmp.ents, _cmp.bad = ents, bad
    res = {}
    for r in parallel(_cmp, e, es):
        res.update(r)
    return e, ents, res, missing, bad

if __name__ == '__main__':
    t0 = time.time()
    if sys.argv[1] == 'gen':
        res = generate(sys.argv[2:])
        n = sum(len(o[0]) for o in res.values() if o[0])
        print('accessors', len(res), 'with outcomes', sum(1 for o in res.values() if o[0]), 'complete', sum(1 for o in res.values() if o[0] and o[1] is True), 'outcomes', n, '%.1fs' % (time.time()-t0), os.path.getsize(SPEC))
        print('failed', [(k, v[1]) for k, v in res.items() if v[0] is None][:50])
    else:
        e, ents, res, missing, bad = check('quick', sys.argv[2] if len(sys.argv) > 2 else None)
        print('accessors', len(res), 'cases', sum(r[0] for r in res.values()), 'undecided', sum(r[2] for r in res.values()), 'missing', missing[:5], 'bad', len(bad), '%.1fs' % (time.time()-t0))
        for k, (c, d, u, p) in res.items():
            for x in d[:1]:
                print(k, x)
