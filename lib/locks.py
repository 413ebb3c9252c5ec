"""Guard liveness over MIR: which locks may be held at every call, and which locks a call may take."""
import re

MODE = {'RwLockReadGuard': 'r', 'RwLockWriteGuard': 'w', 'MutexGuard': 'w', 'MappedReadGuard': 'r', 'MappedWriteGuard': 'w', 'DoubleReadGuard': 'r'}
TAKE = {'read': 'r', 'write': 'w', 'lock': 'w', 'try_read': 'r', 'try_write': 'w', 'try_lock': 'w'}

def short(x):
    x = re.sub(r"<'[^>]*?, ", '<', re.sub(r"'\w+ ?", '', x))
    x = re.sub(r'[a-z_0-9]+::', '', x)
    for a, b in (('HashMap<Arc<str>, DirectoryEntry, BuildHasherDefault<FnvHasher>>', 'EntriesMap'), (', BuildHasherDefault<FnvHasher>', '')):
        x = x.replace(a, b)
    return x

class Locks:
    def __init__(self, crates, skip=()):
        self.fns, self.impls = {}, {}
        for c in crates:
            for k, f in c.fns.items():
                if not f.get('test'):
                    self.fns[k] = f
        for k, f in self.fns.items():
            if f.get('itrait'):
                self.impls.setdefault((f['itrait'].split('<')[0], f['name']), []).append(k)
        self.calls = {k: self.flow(f) for k, f in self.fns.items()}
        self.summarise()
    # --- types
    def guards(self, tys, t, deep=0):
        """{(class, mode)} of the guards a value of the type owns"""
        x = tys[t]
        if deep > 6 or x['k'] in ('ref', 'ptr', 'fn', 'fndef'):
            return frozenset()
        out = set()
        if x['k'] == 'adt':
            n = x['d'].split('::')[-1]
            if n in MODE:
                return frozenset([(short(tys[x['a'][0]]['s']), MODE[n])])
        for y in x.get('a') or ():
            if isinstance(y, int):
                out |= self.guards(tys, y, deep + 1)
        return frozenset(out)
    # --- flow
    def flow(self, f):
        tys, owns = f['tys'], {}
        for i, (t, n) in enumerate(f['locals']):
            g = self.guards(tys, t)
            if g:
                owns[i] = g
        if not owns and not any(b['t'][0] == 'call' for b in f['blocks']):
            return []
        n = len(f['blocks'])
        state = [None] * n
        state[0] = frozenset(i for i in owns if 1 <= i <= f['argc'])
        work, out = [0], {}
        def moved(s, op):
            if op[0] == 'm' and op[1][0] in owns:
                s.discard(op[1][0])
        def ops(r):
            if isinstance(r, list):
                if len(r) == 2 and r[0] in ('m', 'c') and isinstance(r[1], list):
                    yield r
                else:
                    for y in r:
                        yield from ops(y)
        while work:
            b = work.pop()
            s = set(state[b])
            disc = {}
            bl = f['blocks'][b]
            for st in bl['s']:
                if st[0] == '=':
                    for o in ops(st[2]):
                        moved(s, o)
                    if st[1][0] in owns and st[2][0] != 'k':
                        # None / a value without a guard
                        if st[2][0] == 'agg' and not st[2][-1]:
                            if not st[1][1]:
                                s.discard(st[1][0])
                        else:
                            s.add(st[1][0])
                    if st[2][0] == 'discr' and not st[2][1][1]:
                        disc[st[1][0]] = st[2][1][0]
                elif st[0] == 'dead':
                    s.discard(st[1])
            t = bl['t']
            succ = []
            if t[0] == 'call':
                for o in t[2]:
                    moved(s, o)
                before = frozenset(s)
                out[b] = (t, before, frozenset(g for o in t[2] if o[0] in 'mc' and not o[1][1] and o[1][0] in owns for g in owns[o[1][0]]))
                if t[3][0] in owns:
                    s.add(t[3][0])
                if t[4] >= 0:
                    succ = [(t[4], s)]
            elif t[0] == 'drop':
                if not t[1][1]:
                    s.discard(t[1][0])
                succ = [(t[2], s)]
            elif t[0] == 'switch':
                o = t[1]
                d = disc.get(o[1][0]) if o[0] in 'mc' and not o[1][1] else None
                opt = d in owns and tys[f['locals'][d][0]].get('d') == 'core::option::Option'
                seen = set()
                for val, tgt in t[2]:
                    seen.add(val)
                    succ.append((tgt, s - {d} if opt and val == 0 else s))
                succ.append((t[3], s - {d} if opt and 1 in seen else s))
            elif t[0] == 'goto':
                succ = [(t[1], s)]
            elif t[0] == 'assert':
                succ = [(x, s) for x in t[1:] if isinstance(x, int)][:1] if False else [(self.assert_target(t), s)]
            for tgt, s2 in succ:
                if tgt is None or tgt < 0 or tgt >= n:
                    continue
                new = frozenset(s2) | (state[tgt] or frozenset())
                if state[tgt] is None or new != state[tgt]:
                    state[tgt] = new
                    work.append(tgt)
        res = []
        for b, (t, before, args) in sorted(out.items()):
            held = {}
            for i in before:
                for g in owns[i]:
                    held.setdefault(g, set()).add(i)
            res.append((t, held, args))
        return res
    @staticmethod
    def assert_target(t):
        x = [y for y in t[1:] if isinstance(y, int) and not isinstance(y, bool)]
        return x[0] if x else None
    # --- calls
    def targets(self, f, t):
        """(functions called, closures handed over, lock taken, calls back an unknown function)"""
        c = t[1]
        if not isinstance(c, dict):
            return [], [], None, False
        d = c.get('def') or ''
        name = d.split('::')[-1]
        tys = f['tys']
        lock = None
        if re.search(r'::(Mutex|RwLock)::<', d) and name in TAKE:
            lock = (short(tys[c['ta'][0]]['s']), TAKE[name])
        once = None
        if re.search(r'::OnceLock::<', d) and name in ('get_or_init', 'get_or_try_init'):
            once = ('once ' + short(tys[c['ta'][0]]['s']), 'w')
        fns = []
        if c.get('key') in self.fns:
            fns.append(c['key'])
        elif not c.get('key') or c.get('note'):
            tr = '::'.join(d.split('::')[:-1]).split('<')[0]
            fns += [k for (a, n), ks in self.impls.items() if n == name and a.split('::')[-1] == tr.split('::')[-1] for k in ks]
        cl = set()
        for a in c.get('ta') or ():
            x = tys[a]
            if x['k'] == 'closure' and x.get('d'):
                cl.add(x['d'])
        for o in t[2]:
            if o[0] in 'mc' and not o[1][1]:
                x = tys[f['locals'][o[1][0]][0]]
                while x['k'] == 'ref':
                    x = tys[x['a'][0]]
                if x['k'] == 'closure' and x.get('d'):
                    cl.add(x['d'])
        cls = [k for k in self.fns if k in cl or self.fns[k]['def'] in cl] if cl else []
        back = name in ('call', 'call_mut', 'call_once') and not fns
        return fns, cls, lock or once, back
    def summarise(self):
        self.edges = {}     # (held, taken) -> [(function, line, way)]
        T = {}
        for k, cs in self.calls.items():
            f = self.fns[k]
            T[k] = [(t, held, args, self.targets(f, t)) for t, held, args in cs]
        self.T = T
        takes = {k: {} for k in T}      # lock -> how
        back = {k: set() for k in T}    # locks held while an unknown function is called
        calls_back = {k: False for k in T}
        changed = True
        while changed:
            changed = False
            for k, cs in T.items():
                for t, held, args, (fns, cls, lock, cb) in cs:
                    new = {}
                    if lock:
                        new[lock] = ()
                    for g in fns + cls:
                        for l in takes[g]:
                            new.setdefault(l, (g,))
                    for l, h in new.items():
                        if l not in takes[k]:
                            takes[k][l] = h
                            changed = True
                    nb = set()
                    if cb:
                        nb |= set(held)
                        if not calls_back[k]:
                            calls_back[k] = changed = True
                    elif fns:
                        pass
                    if not nb <= back[k]:
                        back[k] |= nb
                        changed = True
        self.takes, self.back = takes, back
        for k, cs in T.items():
            for t, held, args, (fns, cls, lock, cb) in cs:
                def edge(h, l, via):
                    self.edges.setdefault((h, l), []).append((k, t[-2] if isinstance(t[-2], int) else None, via, t, frozenset(held.get(h, ()))))
                for h in held:
                    if lock:
                        edge(h, lock, None)
                    for g in fns + cls:
                        for l in takes[g]:
                            edge(h, l, g)
                for g in fns:
                    for h in back[g]:
                        for c in cls:
                            for l in takes[c]:
                                edge(h, l, g + ' calls ' + c)
                if lock and lock[0].startswith('once'):
                    for c in cls:
                        for l in takes[c]:
                            edge(lock, l, c)

    # --- instances of one class
    def derived(self, f, seeds):
        """locals whose value is made from one of the seeds"""
        key = (f['key'], frozenset(seeds))
        if not hasattr(self, '_der'):
            self._der = {}
        if key in self._der:
            return self._der[key]
        out = set(seeds)
        def mentions(x):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                    return x[0] in out
                return any(mentions(y) for y in x)
            return False
        while True:
            n = len(out)
            for b in f['blocks']:
                for st in b['s']:
                    if st[0] == '=' and mentions(st[2]):
                        out.add(st[1][0])
                t = b['t']
                if t[0] == 'call' and any(o[0] in 'mc' and o[1][0] in out for o in t[2]):
                    out.add(t[3][0])
            if len(out) == n:
                break
        self._der[key] = out
        return out
    def fresh(self, f, i, deep=0):
        """was the lock of this guard made in this function?"""
        if deep > 12:
            return False
        if deep and f['argc'] >= i >= 1:
            return False
        x = f['tys'][f['locals'][i][0]]
        if deep and x['k'] == 'adt' and not self.guards(f['tys'], f['locals'][i][0]):
            return any(b['t'][0] == 'call' and b['t'][3] == [i, []] and isinstance(b['t'][1], dict) and (b['t'][1].get('def') or '').split('::')[-1] in ('new', 'default', 'read_and_watch_dir') or any(st[0] == '=' and st[1] == [i, []] and st[2][0] == 'agg' for st in b['s']) for b in f['blocks'])
        src = []
        for b in f['blocks']:
            for st in b['s']:
                if st[0] == '=' and st[1][0] == i:
                    r = st[2]
                    if r[0] == 'use' and r[1][0] in 'mc':
                        src.append(r[1][1][0])
                    elif r[0] in ('ref', 'raw'):
                        src.append([y for y in r if isinstance(y, list)][0][0])
                    else:
                        return False
            t = b['t']
            if t[0] == 'call' and t[3][0] == i:
                a = [o for o in t[2] if o[0] in 'mc']
                if len(a) != 1:
                    return False
                src.append(a[0][1][0])
        return bool(src) and all(self.fresh(f, s, deep + 1) for s in set(src))
