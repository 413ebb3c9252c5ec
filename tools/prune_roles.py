"""Drop the reference forms of spec/cst_roles.json.gz that take too long to compare (run on the clean tree)."""
import sys, os, gzip, json, time, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cstrole
from cstrole import *
class TO(Exception): pass
def alarm(*a): raise TO()
def _one(a):
    i, n = a
    e, es = _one.e, _one.es
    signal.signal(signal.SIGALRM, alarm)
    out = {}
    for f in es[i::n]:
        keep, used = [], 0
        for j, row in enumerate(_one.ents[f['key']]):
            if used > 12: break
            e.ip.memo = {}; e.ip.stats = Stats()
            t = time.time()
            signal.setitimer(signal.ITIMER_REAL, 1.5)
            try:
                c, d, u, p = compare(e, f, [row], _one.bad)
                signal.setitimer(signal.ITIMER_REAL, 0)
                if c and not d: keep.append(j)
                elif d: print('DIFF', f['key'], d[0][0][:200], flush=True)
            except TO: e.ip.inprog.clear(); e.ip.stack.clear()
            finally: signal.setitimer(signal.ITIMER_REAL, 0)
            used += time.time()-t
        out[f['key']] = (keep, used)
    return out
if __name__ == '__main__':
    t0 = time.time()
    e = cstrole._mk('quick')
    ents, bad = load_spec(e.ip.gr)
    _one.ents, _one.bad = ents, bad
    es = [e.c.fns[k] for k in sorted(ents) if k in e.c.fns]
    res = {}
    for r in parallel(_one, e, es, 400): res.update(r)
    d = json.loads(gzip.open(SPEC).read())
    tot = sum(len(x[1]) for x in d['entries'].values())
    for k, (keep, used) in res.items():
        rows = d['entries'][k][1]
        d['entries'][k] = [d['entries'][k][0] and len(keep) == len(rows), [rows[j] for j in keep]]
    d['entries'] = {k: v for k, v in d['entries'].items() if v[1]}
    with gzip.GzipFile(SPEC, 'wb', mtime=0) as fh:
        fh.write(json.dumps(d, separators=(',', ':')).encode())
    print('rows', tot, '->', sum(len(x[1]) for x in d['entries'].values()), 'accessors', len(d['entries']), 'cpu %.0f' % sum(u for _, u in res.values()), '%.0fs' % (time.time()-t0))
    for k, (keep, u) in sorted(res.items(), key=lambda x: -x[1][1])[:10]: print(k, '%.1f' % u, len(keep))
