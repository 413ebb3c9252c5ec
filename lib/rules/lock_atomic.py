"""C10: what is shared is checked and changed under one lock."""
import re
import facts, locks
from vfsflow import V, Rules, s

def local(f, o):
    return o[1][0] if o[0] in 'mc' else None

def run(rep):
    rep.rule('Over the MIR of vfs and utils: a list that grows is only touched while its lock is held and nothing leaves it through a shared reference; a value is only stored behind a lock after it was looked at under the same guard; '
             'a list that is replaced as a whole is read and replaced under one guard; the functions that hand out what lies behind a guard keep the guard.')
    vfs, utils = facts.load('vfs'), facts.load('utils')
    L = locks.Locks([vfs, utils])
    CELL = re.compile(r'UnsafeCell<Vec<')
    # --- lists that grow
    n = 0
    REMOVE = {'remove', 'swap_remove', 'pop', 'truncate', 'clear', 'drain', 'retain', 'insert', 'swap', 'dedup', 'take', 'replace', 'set_len', 'split_off', 'reverse', 'sort', 'sort_by', 'index_mut', 'get_mut', 'iter_mut', 'append', 'extend', 'last_mut', 'first_mut'}
    for k, cs in L.calls.items():
        f = L.fns[k]
        if f['krate'] != 'utils' or f['unsafe']:
            continue
        own = [i for i, (t, _) in enumerate(f['locals']) if any(CELL.search(c) for c, m in L.guards(f['tys'], t))]
        if not own:
            continue
        d = L.derived(f, own)
        for t, held, args in cs:
            c = t[1]
            nm = (c.get('def') or '').split('::')[-1] if isinstance(c, dict) else ''
            for j, o in enumerate(t[2]):
                i = local(f, o)
                if i is None or i in own or i not in d:
                    continue
                ty = locks.short(f['tys'][f['locals'][i][0]]['s'])
                if not re.search(r'(^|<)[&\*].*(Vec<|Pin<)|^(Iter|IterMut)<', ty) or 'Guard<' in ty or 'Mutex<' in ty or 'UnsafeCell' in ty:
                    continue
                n += 1
                key = '%s: %s(%s)' % (f['def'], nm, ty)
                if not any(CELL.search(h[0]) for h in held):
                    rep.bad(key, '%s:%s in %s: the list is touched (%s) after its lock was released: another thread may be growing it' % (f['file'], t[-2], f['def'], nm))
                elif nm in REMOVE and j == 0:
                    rep.bad(key, '%s:%s in %s: %s on the list through a shared reference: what it held may be borrowed' % (f['file'], t[-2], f['def'], nm))
                else:
                    rep.ok(key)
    rep.floor('accesses to the growing list', n, 12)
    # elements do not move when the list grows
    a = utils.adts.get('utils::InsertOnlyVec')
    if a:
        ty = ' '.join(x[1] for v in a['v'] for x in v['f'])
        rep.need('Pin<' in ty, 'InsertOnlyVec: elements are pinned', 'crates/utils/src/lib.rs InsertOnlyVec: its elements are stored by value and move when it grows (%s)' % ty[:100])
    U = Rules(rep, V('utils'))
    def push(p):
        g = 'get(in(self.vec))'
        ev = p.calls('seq push')
        if not ev:
            return 'nothing is added'
        if len(ev) != 1 or s(ev[0][2][1]) != 'element':
            return 'something else is added: %s' % s(ev[0][2][1])[:60]
        if p.ret[0] != 'tup' or len(p.ret[1]) != 2:
            return None
        x, i = s(p.ret[1][0]), s(p.ret[1][1])
        m = re.match(r'bin\(Sub, len\((.*)\), 1\)$', i)
        if m:
            if '++ element]' not in m.group(1):
                return 'the index returned is not the one of the element added'
        elif i == 'len(%s)' % g:
            pass
        else:
            return 'the index returned is %s' % i[:80]
        if not (x.startswith('last(') and '++ element]' in x or x == 'element' or x.startswith('index(') or x.startswith('get(')):
            return 'another element is handed back: %s' % x[:80]
        return True
    U.each('InsertOnlyVec::push', 'the element and its index are handed back', push, opaque=())
    def get(p):
        G = 'get(index, get(in(self.vec)))'
        r = s(p.ret)
        d = p.fact('discr(%s)' % G)
        if d is None:
            return None
        return True if r == (G if d else 'Option#0()') else 'something else is handed back: %s' % r[:80]
    U.each('InsertOnlyVec::get', 'the element of that index is handed back', get, need=2, opaque=())
    for g in ('MappedReadGuard', 'MappedWriteGuard'):
        U.each(g + '::map', 'the value behind the guard is handed out with the guard', lambda p: True if s(p.ret) == g + '#0(_guard, callback(make, _guard))' else 'found %s' % s(p.ret)[:100], opaque=(), labels=['_guard', 'make'])
        C = 'callback(make, _guard)'
        U.spec(g + '::map_optional', 'the value behind the guard is handed out with the guard', lambda d: 'Option#1(%s#0(_guard, %s@1.0))' % (g, C) if d(C, 2) else 'Option#0()', lambda p: s(p.ret), need=2, opaque=(), labels=['_guard', 'make'])
        ad = utils.adts.get('utils::' + g)
        if ad:
            ty = ' '.join(x[1] for v in ad['v'] for x in v['f'])
            rep.need(re.search(r'RwLock(Read|Write)Guard<', ty) and not re.search(r'&\S* ?\S*RwLock', ty), g + ': owns its guard', 'crates/utils/src/lib.rs %s: it does not own the guard of what it points to' % g)
    # --- the index of a file
    W = Rules(rep, V())
    F = 'in(self.file_index)'
    W.spec('with_set_file_index', 'an index is given once', lambda d: (F + '@1.0', 0, ()) if d(F, 2) else ('callback(make)', 1, ('Option#1(callback(make))',)),
           lambda p: (s(p.ret), len(p.calls('callback')), tuple(x for a, x, e in p.writes() if a == F)), need=2, opaque=(), labels=['self', 'make'])
    seen = 0
    for k, cs in L.calls.items():
        f = L.fns[k]
        own = {i for i, (t, _) in enumerate(f['locals']) if any(c == 'Option<FileIndex>' for c, m in L.guards(f['tys'], t)) and f['tys'][t].get('d', '').endswith('MutexGuard')}
        if not own:
            continue
        wr, rd = set(), set()
        for t, held, args in cs:
            nm = (t[1].get('def') or '').split('::')[-1] if isinstance(t[1], dict) else ''
            if nm in ('deref', 'deref_mut') and t[2]:
                i = local(f, t[2][0])
                src = {x for x in own if i in L.derived(f, {x})}
                (wr if nm == 'deref_mut' else rd).update(src)
            elif nm in ('get_or_insert', 'get_or_insert_with', 'get_or_insert_default') and t[2]:
                rd.update(x for x in own if local(f, t[2][0]) in L.derived(f, {x}))
        for b in f['blocks']:
            for st in b['s']:
                if st[0] == '=' and st[2][0] == 'discr' and '*' in st[2][1][1]:
                    rd.update(x for x in own if st[2][1][0] in L.derived(f, {x}))
        if wr:
            seen += 1
            rep.need(wr <= rd, f['def'] + ': the index is set under the guard it was looked at with', '%s:%s in %s: the index of a file is set under another guard than the one it was looked at with: two threads that load the file both give it an index' % (f['file'], f['line'], f['def']))
    rep.floor('places that set the index of a file', seen, 1)
    S = 'add_uninitialized_file_state'
    def state(p):
        w = p.calls('with_set_file_index')
        if not w:
            return 'the index is not given through the entry of the file'
        if s(w[0][2][0]) != 'entry':
            return 'the index is given to another entry'
        if p.ret[0] != 'tup':
            return None
        return True if s(p.ret[1][1]) == s(w[0][3]) else 'another index is returned: %s' % s(p.ret[1][1])[:60]
    W.each('Vfs::' + S, 'a file is added once, under the index its entry has', state, opaque=('with_set_file_index', 'file_state', S + '_without_setting_file_index'))
    # an index that two threads ask for is the same one, and belongs to the state that is returned
    def both(p):
        e = 'in(entry.file_index)'
        d = p.fact('discr(%s)' % e)
        if d is None or p.ret[0] != 'tup':
            return None
        st, ix = s(p.ret[1][0]), s(p.ret[1][1])
        if d == 1:
            return True if ix == e + '@1.0' and e + '@1.0' in st else 'a file that has an index gets another state: %s' % st[:80]
        pushes = p.calls('slot push')
        if len(pushes) != 1:
            return 'a file without an index gets %d states' % len(pushes)
        return True if 'newidx(self.files' in ix else 'the index is not the one of the state added: %s' % ix[:60]
    W.each('Vfs::' + S, 'state and index belong together', both, need=2, opaque=())
    # --- check and insert
    n = 0
    for k, cs in L.calls.items():
        f = L.fns[k]
        if 'add_missing_entry_callback' not in k:
            continue
        ins = [(t, h) for t, h, a in cs if isinstance(t[1], dict) and (t[1].get('def') or '').endswith('::insert') and 'HashMap' in t[1]['def']]
        if not ins:
            continue
        n += 1
        look = [t for t, h, a in cs if isinstance(t[1], dict) and re.search(r'HashMap::.*::(get|get_mut|contains_key|entry)$', t[1]['def'])]
        takes = [l for l in L.takes[k] if l[0] == 'EntriesMap']
        rep.need(look and not (takes and '{closure' in k), f['def'] + ': a missing name is looked up and entered under one guard',
                 '%s:%s in %s: a missing name is entered under another guard than the one it was looked up with: what another thread entered in between is lost' % (f['file'], f['line'], f['def']))
    if not n:
        rep.undecided('add_missing_entry_callback')
    # --- the list of workspaces
    n = 0
    for k, cs in L.calls.items():
        f = L.fns[k]
        if f['krate'] != 'vfs':
            continue
        st = [(t, h) for t, h, a in cs if isinstance(t[1], dict) and re.search(r'ArcSwapAny::.*::(store|swap)$', t[1].get('def') or '')]
        if not st:
            continue
        ld = [(t, h) for t, h, a in cs if isinstance(t[1], dict) and re.search(r'ArcSwapAny::.*::(load|load_full)$', t[1].get('def') or '')]
        n += 1
        excl = any(re.match(r"&mut .*Workspaces$", f['tys'][f['locals'][i][0]]['s']) for i in range(1, f['argc'] + 1))
        for t, h in st + ld:
            key = '%s: %s' % (f['def'], t[1]['def'].split('::')[-1])
            gs = [i for c, o in h.items() if c == ('()', 'w') for i in o]
            rep.need(gs or excl, key, '%s:%s in %s: the list of workspaces is %s without holding the lock for changes: a workspace that another thread adds at that time is lost' % (f['file'], t[-2], f['def'], 'read to be replaced' if t in [x for x, _ in ld] else 'replaced'))
        both = {i for t, h in st for c, o in h.items() if c == ('()', 'w') for i in o}
        for t, h in ld:
            g2 = {i for c, o in h.items() if c == ('()', 'w') for i in o}
            if g2 and both and not g2 & both:
                rep.bad(f['def'] + ': one guard', '%s:%s in %s: the list of workspaces is read under another guard than it is replaced under' % (f['file'], t[-2], f['def']))
    rep.floor('places that replace the list of workspaces', n, 1)
    # --- lost updates in general
    for k, cs in L.calls.items():
        f = L.fns[k]
        gl = {}
        for i, (t, _) in enumerate(f['locals']):
            x = f['tys'][t]
            if x['k'] == 'adt' and x['d'].split('::')[-1] in ('RwLockReadGuard', 'RwLockWriteGuard', 'MutexGuard', 'MappedReadGuard', 'MappedWriteGuard'):
                for c, m in L.guards(f['tys'], t):
                    gl.setdefault(c, []).append((i, m))
        for c, gs in gl.items():
            w = [i for i, m in gs if m == 'w' and not L.fresh(f, i)]
            for i in w:
                d = L.derived(f, {i})
                for j, m in gs:
                    if j == i or j in d or L.fresh(f, j):
                        continue
                    dj = L.derived(f, {j}) - d
                    if i in L.derived(f, {j}):
                        continue
                    key = '%s: %s' % (f['def'], c)
                    bad = None
                    for t, held, args in cs:
                        if t[2] and local(f, t[2][0]) in d and any(local(f, o) in dj for o in t[2][1:]) and not any(j in o for o in held.values()) and isinstance(t[1], dict):
                            bad = t[-2]
                    for b in f['blocks']:
                        for st in b['s']:
                            if st[0] == '=' and st[1][0] in d and '*' in st[1][1] and st[2][0] == 'use' and local(f, st[2][1]) in dj:
                                bad = st[-1]
                    if bad:
                        rep.bad(key, '%s:%s in %s: what is stored behind the lock of %s was made from what lay there under an earlier guard: a change in between is lost' % (f['file'], bad, f['def'], c))
                    else:
                        rep.ok(key)
    for R in (U, W):
        R.rep.counts.update(paths=R.npaths)
    rep.counts['functions'] = len(L.fns)
