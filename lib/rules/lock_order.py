"""C09: locks are taken in one order."""
import re
import facts, locks

NODE = re.compile(r'\b(Entries|Directory|DirectoryEntry|DirOrFile|EntriesMap)\b')

def descends(L, f, t, own):
    """is everything of the tree that the call gets taken from behind the guards? (the tree is then walked downwards)"""
    d = L.derived(f, own)
    nodes, ok = 0, True
    for o in t[2]:
        if o[0] not in 'mc':
            continue
        i = o[1][0]
        ty = locks.short(f['tys'][f['locals'][i][0]]['s'])
        if 'closure@' in ty or 'impl FnMut' in ty or 'impl Fn' in ty:
            continue
        if re.match(r'[&mut ]*Parent$', ty) and o is t[2][0] and isinstance(t[1], dict) and 'Parent::' in (t[1].get('def') or ''):
            return False
        if NODE.search(ty):
            nodes += 1
            ok = ok and i in d
    return nodes > 0 and ok

def run(rep):
    rep.rule('Over the MIR of vfs and utils, which guards may be alive at every call (moves, drops and the empty variants of optional guards are followed) and which locks a call may take, transitively and through callbacks. '
             'The relation "taken while held" between locks of different kinds must have no cycle; within one kind (the entries of a directory) the lock taken must belong to something found behind the guard held, or one of the two must be new.')
    L = locks.Locks([facts.load('vfs'), facts.load('utils')])
    graph = {}
    sites = 0
    for (h, l), ws in L.edges.items():
        for k, line, via, t, own in ws:
            sites += 1
            if h[0] != l[0]:
                graph.setdefault(h[0], {}).setdefault(l[0], []).append((k, line, via))
                continue
            f = L.fns[k]
            key = '%s: %s(%s) held, %s taken' % (f['def'], h[0], h[1], l[1])
            if own and all(L.fresh(f, i) for i in own):
                rep.ok(key, 'the lock held is new')
                continue
            if not own:     # held by the function that calls back
                rep.ok(key, 'callback') if NODE.search(h[0]) else rep.bad(key, '%s:%s in %s: a callback takes %s, which is held while it is called (through %s)' % (f['file'], line, f['def'], l[0], via))
                continue
            if h[0] == 'EntriesMap' and descends(L, f, t, own):
                rep.ok(key, 'the call goes down the tree')
                continue
            rep.bad(key, '%s:%s in %s: while a guard of %s (%s) is alive, the call%s takes a lock of the same kind (%s) that need not lie below it: the thread waits for itself, or two threads for each other' % (f['file'], line, f['def'], h[0], {'r': 'shared', 'w': 'exclusive'}[h[1]], ' to ' + via if via else '', {'r': 'shared', 'w': 'exclusive'}[l[1]]))
    # cycles between kinds
    def reach(a):
        seen, work = set(), [a]
        while work:
            for y in graph.get(work.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen
    R = {a: reach(a) for a in graph}
    for a in graph:
        for b in graph[a]:
            key = '%s before %s' % (a, b)
            if a in R.get(b, ()):
                k, line, via = graph[a][b][0]
                k2, l2, v2 = next(iter(graph[b].values()))[0]
                # report the rarer direction
                n = sum(len(x) for x in graph[a].values())
                rep.bad('cycle ' + ' / '.join(sorted((a, b))), '%s:%s in %s: %s is taken while %s is held%s, and elsewhere the other way round (%s:%s in %s)' % (L.fns[k]['file'], line, L.fns[k]['def'], b, a, ' (through %s)' % via if via else '', L.fns[k2]['file'], l2, L.fns[k2]['def']))
            else:
                rep.ok(key)
    # every lock of the sources is known to the analysis
    kinds = {l[0] for k in L.takes for l in L.takes[k]}
    rep.counts.update(functions=len(L.fns), pairs=len(L.edges), sites=sites)
    rep.samples += ['%s before %s: %s' % (a, b, ', '.join(sorted({L.fns[w[0]]['name'] for w in ws}))[:120]) for a in graph for b, ws in graph[a].items()][:10]
    rep.floor('kinds of locks', len(kinds), 7)
    rep.floor('calls with a guard alive', sites, 40)
    rep.assumptions += ['the entries of directories form a tree (a directory has one parent), so that walking downwards never meets the same lock twice',
                        'guards handed out of the crates (Entries::borrow, search) are dropped by their callers before they call back into the crate']
