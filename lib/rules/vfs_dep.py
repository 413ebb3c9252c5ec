"""C05: a change reaches every file that depends on it."""
import re
from vfsflow import V, Rules, WALK, WALK2, s, T, norm, sub, strip

def variant(v, adt, name, dflt):
    for i, x in enumerate(v.c.adts.get(adt, {}).get('v', [])):
        if x['n'] == name:
            return i
    return dflt

def empty(x):
    return x.startswith('default(') or x == '[]' or x in ('InvalidationDetail#1([])', 'InvalidationDetail#1(set())') or re.match(r'InvalidationDetail#1\((default\(.*|\[\])\)$', x) is not None

def run(rep):
    rep.rule('On every path: whoever is found to depend on a changed file is invalidated in turn, its own dependents included; a set of dependents is emptied only by handing its elements on; '
             'a file whose contents are replaced, unloaded, created or removed hands its set on; the tree walk reaches every entry below a replaced or removed one.')
    v = V()
    R = Rules(rep, v)
    MARK = variant(v, 'vfs::tree::InvalidationDetail', 'InvalidatesDb', 0)
    DB = variant(v, 'vfs::vfs::InvalidationResult', 'InvalidatedDb', 1)
    FILE, DIR, MISS, GIT = (variant(v, 'vfs::tree::DirectoryEntry', n, i) for i, n in enumerate(('File', 'Directory', 'MissingEntry', 'Gitignore')))
    KF = variant(v, 'vfs::vfs::InMemoryKind', 'File', 0)
    def isdb(p):
        return p.ret[0] == 'adt' and p.ret[2] == DB
    # --- the two recursive functions
    def each_dep(p):
        d = p.fact('discr(in(invs.0))')
        if d == MARK:
            return None
        n, over, began = p.visited('in(invs.0)@1.0')
        calls = p.calls('invalidate_file_by_index')
        for i in range(n):
            if not any(s(e[2][2]) == 'elem(in(invs.0)@1.0, %d)' % i and s(e[2][1]) == 'origin' for e in calls):
                return 'a dependent is passed over, or not told which file changed (%s)' % '; '.join('(%s, %s)' % (s(e[2][1]), s(e[2][2])) for e in calls)
        if over or isdb(p) or any(p.discr(e[3]) == DB for e in calls):
            return True
        return 'dependents are left out'
    R.each('Vfs::invalidate_files', 'every dependent is invalidated', each_dep)
    def all_buffers(p):
        if p.fact('discr(in(invs.0))') != MARK:
            return None
        n, over, began = p.visited('self.in_memory_files')
        said = {s(e[2][1]) for e in p.calls('on_invalidated_in_memory_file')}
        for i in range(n):
            if 'key(self.in_memory_files, %d)' % i not in said:
                return 'an open buffer is not told that the whole database is invalid'
        return True if over else 'open buffers are left out'
    R.each('Vfs::invalidate_files', 'an invalid database is announced to every open buffer', all_buffers)
    SLOT = 'slot(self.files, index.0)'
    LOCK = SLOT + '.file_entry.invalidations.0'
    SETS = ('Invalidations#0(Lock#0(in(%s)))' % LOCK, 'Invalidations#0(Lock#0(InvalidationDetail#%d()))' % MARK)
    def handed(p, lock, origin, after=-1):
        """the set behind lock is emptied and handed to invalidate_files(origin) -> True or what is wrong"""
        marked = p.fact('discr(in(%s))' % lock) == MARK
        sets = ('Invalidations#0(Lock#0(in(%s)))' % lock,) + (('Invalidations#0(Lock#0(InvalidationDetail#%d()))' % MARK,) if marked else ())
        hs = [e for e in p.calls('invalidate_files') if s(e[2][2]) in sets and p.pos(e) > after]
        if not hs:
            return 'the dependents are not invalidated'
        hs.sort(key=lambda e: s(e[2][1]) not in (origin or ()))
        if origin is not None and s(hs[0][2][1]) not in origin:
            return 'the dependents are told that %s changed' % s(hs[0][2][1])
        w = [(x, e) for a, x, e in p.writes() if a in ('in(%s)' % lock, 'in(%s)@1.0' % lock) and p.pos(e) < p.pos(hs[0])]
        if not marked and not (w and empty(w[-1][0])):
            return 'the set of dependents is not emptied before its elements are invalidated: a cycle of dependents never ends'
        return True
    def onward(p):
        # elements may also be visited without invalidate_files
        return handed(p, LOCK, ('origin',))
    R.each('Vfs::invalidate_file_by_index', 'the dependents of a dependent are invalidated, and cycles end', onward)
    def refs(p):
        d = p.fact('discr(in(%s.file))' % SLOT)
        if d == 0 or p.fact('exists(%s)' % SLOT) == 0:
            return None
        ev = p.calls('invalidate_references_to')
        return True if any(s(e[2][0]) == 'in(%s.file)@1.0' % SLOT and s(e[2][1]) == 'origin' for e in ev) else 'the loaded dependent does not drop its references to the changed file'
    R.each('Vfs::invalidate_file_by_index', 'a loaded dependent drops its references', refs)
    def told(p):
        if isdb(p):
            return None
        d = p.fact('discr(mapget(self.in_memory_files, %s.path))' % SLOT)
        ev = [e for e in p.calls('on_invalidated_in_memory_file') if s(e[2][1]) == SLOT + '.path']
        if d is None:
            return 'whether the dependent is an open buffer is not asked'
        return True if bool(ev) == (d == 1) else 'an open buffer is not told that it is invalid' if d else 'a file that is not open is announced as a buffer'
    R.each('Vfs::invalidate_file_by_index', 'an open buffer is told', told)
    # --- unloading and replacing
    ORIG = ('Option#1(index)',)
    def unloaded(p, slot=SLOT, before=None):
        w = [(x, e) for a, x, e in p.writes() if a == 'in(%s.file)' % slot]
        return bool(w) and w[0][0].startswith('Option#0')
    def unl(p):
        if not unloaded(p):
            return 'the file stays loaded'
        return handed(p, LOCK, ORIG)
    R.each('Vfs::invalidate_and_unload_file', 'the file is unloaded and its dependents invalidated', unl)
    def upd(p):
        r = unl(p)
        if r is not True:
            return r
        w = [x for a, x, e in p.writes() if a == 'in(%s.file)' % SLOT]
        return True if w[-1] == 'Option#1(callback(make, %s, index, code))' % SLOT else 'the file ends as %s' % w[-1]
    R.each('Vfs::update_file', 'the file is replaced by the new one and its dependents invalidated', upd)
    # --- storing a buffer
    ENS = 'ensure_file(self.workspaces, self.handler.0, flag, path, code.0)'
    kw = dict(models=WALK)
    def made(p):
        return [e for e in p.calls('callback') if s(e[2][0]) == 'make']
    def stored(p):
        if not made(p):
            return None
        cs = p.calls('invalidate_files')
        if not any(s(e[2][2]) == ENS + '.invalidations' for e in cs):
            return 'the files that were waiting for the new file are not invalidated'
        e = [e for e in cs if s(e[2][2]) == ENS + '.invalidations'][0]
        idx = s(made(p)[0][2][1])
        if s(e[2][1]) not in ('Option#1(%s)' % idx, idx.rsplit('@1.0', 1)[0]):
            return 'the waiting files are told that %s is new, not %s' % (s(e[2][1]), idx)
        return True
    R.each('Vfs::store_in_memory_file', 'files that were waiting for the new file are invalidated', stored, **kw)
    def restored(p):
        if not made(p):
            return None
        idx = s(made(p)[0][2][1])
        if 'newidx' in idx:
            return None
        slot = 'slot(self.files, %s.0)' % idx
        if p.fact('exists(%s)' % slot) == 0:
            return None
        return handed(p, slot + '.file_entry.invalidations.0', ('Option#1(%s)' % idx, idx.rsplit('@1.0', 1)[0]))
    R.each('Vfs::store_in_memory_file', 'the dependents of the edited buffer are invalidated', restored, **kw)
    def skipped(p):
        if made(p) or p.fact('discr(%s.kind)' % ENS) != variant(v, 'vfs::tree::AddedKind', 'FileEntry', 0):
            return None
        # nothing is made: the code is the same
        return True if p.same_code() else 'the new contents are ignored although they are not known to be the same'
    R.each('Vfs::store_in_memory_file', 'only unchanged contents are skipped', skipped, **kw)
    # --- closing a buffer
    REM = 'mapget(self.in_memory_files, path)@1.0@%d.0' % KF
    def idxof(p):
        for e in p.calls('unload_file', 'invalidate_files', 'callback', 'code'):
            for a in e[2]:
                m = re.search(r'slot\(self\.files, (mapget\(self\.in_memory_files, path\)@1\.0@%d\.0)\.0\)' % KF, s(a))
                if m:
                    return m.group(1)
        return REM
    def isfile(p):
        return p.fact('discr(mapget(self.in_memory_files, path)@1.0)') == KF
    def closed(p):
        if not isfile(p) or p.ret[0] != 'adt' or p.ret[2] != 0:
            return None
        slot = 'slot(self.files, %s.0)' % REM
        same = p.same_code(slot)
        read = [e for e in p.calls('read_and_watch_file')]
        on = read and p.discr(read[0][3]) == 1
        if same and on:
            return None
        if not unloaded(p, slot):
            return 'the closed buffer stays loaded although the file on disk differs or is gone'
        r = handed(p, slot + '.file_entry.invalidations.0', ('Option#1(%s)' % REM,))
        if r is not True:
            return r
        if not on:
            u = p.calls('unload_file')
            return True if any(s(e[2][3]) == slot + '.path' for e in u) else 'the entry of a file that exists nowhere stays in the tree'
        return True
    R.each('Vfs::close_in_memory_file', 'dependents of a buffer whose file differs or is gone are invalidated', closed, **kw)
    # --- events of the file system
    def events(p):
        return p.calls('walked')
    def anyread(p):
        return p.calls('read_and_watch_entry')
    def evictions(p):
        """every indexed file seen below the replaced or removed entry is unloaded, every waiting file invalidated"""
        if isdb(p):
            return None
        found = [k[6:-1] for k, x in p.facts.items() if x == 1 and re.match(r'discr\(in\(within\(.*\)@%d\.0\.file_index\)\)$' % FILE, k)]
        miss = [k[6:-1] for k, x in p.facts.items() if x == 1 - MARK and re.match(r'discr\(in\(within\(.*\)@%d\.0\.invalidations\.0\)\)$' % MISS, k)]
        if not found and not miss:
            return None
        byidx = {s(e[2][2]): s(e[2][1]) for e in p.calls('invalidate_file_by_index')}
        for f in found:
            inmem = any(k.startswith('eq(') and x == 1 and f + '@1.0' in k and 'self.in_memory_files' in k for k, x in p.facts.items()) or \
                any(('value(self.in_memory_files' in i and '@%d.0' % KF in i) for i in byidx)
            if inmem:
                if not any(i == f + '@1.0' or 'value(self.in_memory_files' in i for i in byidx):
                    return 'the dependents of an open buffer below the changed entry are not invalidated'
                continue
            slot = 'slot(self.files, %s@1.0.0)' % f
            if not unloaded(p, slot):
                return 'a file below the changed entry stays loaded'
            r = handed(p, slot + '.file_entry.invalidations.0', ('Option#1(%s@1.0)' % f, f))
            if r is not True:
                return r
        for m in miss:
            n, over, began = p.visited(m + '@1.0')
            for i in range(n):
                if 'elem(%s@1.0, %d)' % (m, i) not in byidx:
                    return 'a file that was waiting for the new entry is not invalidated'
            if not over:
                return 'files that were waiting for the new entry are left out'
        return True
    R.each('Vfs::invalidate_path', 'files below the changed entry and files waiting for it are invalidated', evictions, **kw)
    R.each('Vfs::invalidate_path', 'files below the changed entry and files waiting for it are invalidated (two files)', evictions, models=WALK2)
    R.each('Vfs::invalidate_path', 'the walk below the changed entry does not stop early', lambda p: None if not events(p) else
           True if all(s(e[2][1]) == '1' for e in events(p)) else 'the walk does not descend below some entry', **kw)
    PAR = 'search_potential_parent_for_invalidation(self.workspaces, self.handler.0, flag, path)'
    ENTS = 'in(entries(%s@1.0.1).0)' % PAR
    NAME = PAR + '@1.0.2'
    OLD = 'mapget(%s, %s)' % (ENTS, NAME)
    def replaced(p):
        rd = anyread(p)
        if not rd or isdb(p):
            return None
        new = rd[0][3]
        there, kind = p.fact('discr(%s)' % OLD), p.fact('discr(%s@1.0)' % OLD)
        w = [x for a, x, e in p.writes() if a in ('slot(%s, %s)' % (ENTS, NAME), OLD + '@1.0')]
        ins, rem = p.calls('map insert'), p.calls('map remove')
        ins = [e for e in ins if s(e[2][0]) == ENTS and s(e[2][1]) == NAME]
        rem = [e for e in rem if s(e[2][0]) == ENTS and s(e[2][1]) == NAME]
        seen = events(p)
        if p.discr(new) == 0:
            if there == 0:
                return None
            if kind == MISS:
                return None if not seen and not w else None
            if not rem:
                return 'the entry that is gone from disk stays in the tree'
            return True if seen or there is None else 'what was below the removed entry is not invalidated'
        if p.discr(new) != 1:
            return None
        if there == 0:
            return True if any(s(e[2][2]) == s(new) + '@1.0' for e in ins) else 'the new entry is not added to the tree'
        same = p.same_code()
        if w or ins:
            val = w[-1] if w else s(ins[-1][2][2])
            if val != s(new) + '@1.0':
                return 'the entry is replaced by %s' % val[:100]
            return True if seen else 'what was below the replaced entry is not invalidated'
        return True if same else 'the entry is not replaced although its contents are not known to be the same'
    R.each('Vfs::invalidate_path', 'a changed entry is replaced, added or removed, and what was below it invalidated', replaced, **kw)
    # --- the tree
    def walk(p):
        cb = p.calls('callback')
        if not cb or s(cb[0][2][1]) != 'self':
            return 'the entry itself is not visited'
        d = p.fact('callback(%s)' % ', '.join(s(a) for a in cb[0][2]))
        if d is None:
            d = next((x for k, x in p.facts.items() if k == s(cb[0][3])), None)
        w = p.calls('walk_internal')
        if d == 0:
            return 'entries below are visited though the callback said no' if w else True
        return True if w and s(w[0][2][0]) == 'self' else 'entries below are not visited'
    R.each('DirectoryEntry::walk_entries', 'visits the entry and everything below it', walk, opaque=('walk_internal',))
    def walki(p):
        if p.fact('discr(self)') != DIR:
            return None
        ents = [m for m in {re.match(r'more\((.*), \d+\)$', k).group(1) for k in p.facts if k.startswith('more(')} if 'entries' in m]
        if len(ents) != 1:
            return 'the entries of a directory are not walked' if not ents else None
        n, over, _ = p.visited(ents[0])
        if not over:
            return 'entries of the directory are left out'
        cb, wi = p.calls('callback'), p.calls('walk_internal')
        for i in range(n):
            el = 'value(%s, %d)' % (ents[0], i)
            c = [e for e in cb if s(e[2][-1]) == el]
            if not c:
                return 'an entry of the directory is not visited'
            d = p.fact(s(c[0][3]))
            below = any(s(e[2][0]) == el for e in wi)
            if d == 1 and not below:
                return 'what is below an entry of the directory is not visited'
        return True
    R.each('DirectoryEntry::walk_internal', 'visits every entry of a directory and everything below it', walki, opaque=('walk_internal', 'entries'))
    # --- sets
    R.each('Invalidations::add', 'a dependent is added', lambda p: None if p.fact('discr(in(self.0))') == MARK else
           True if any(s(e[2][0]) == 'in(self.0)@1.0' and s(e[2][1]) == 'index' for e in p.calls('seq push')) else 'the dependent is not added')
    def ext(p):
        if MARK in (p.fact('discr(in(self.0))'), p.fact('discr(in(invs.0))')):
            return None
        n, over, _ = p.visited('in(invs.0)@1.0')
        m, over2, _ = p.visited('in(self.0)@1.0')
        got = {s(e[2][1]): s(e[2][0]) for e in p.calls('seq push')}
        w = [x for a, x, e in p.writes() if a in ('self.0', 'in(self.0)')]
        base = 'in(self.0)@1.0'
        if w:
            base = 'in(invs.0)@1.0' if 'in(invs.0)' in w[-1] else base
        src = 'in(invs.0)@1.0' if base == 'in(self.0)@1.0' else 'in(self.0)@1.0'
        n, over, _ = p.visited(src)
        if not over:
            return 'dependents are left out'
        for i in range(n):
            if 'elem(%s, %d)' % (src, i) not in got:
                return 'a dependent is left out'
        return True
    R.each('Invalidations::extend', 'the dependents of both are kept', ext)
    def take(p):
        if p.fact('discr(in(self.0))') == MARK:
            return None
        w = [x for a, x, e in p.writes() if a in ('in(self.0)', 'self.0', 'in(self.0)@1.0')]
        if not w or not empty(re.sub(r'^Lock#\d+\((.*)\)$', r'\1', w[-1])):
            return 'the set is not emptied'
        return True if s(p.ret) == 'Invalidations#0(Lock#0(in(self.0)))' else 'the elements are lost: %s' % s(p.ret)[:80]
    R.each('Invalidations::take', 'hands out the dependents and is empty then', take)
    R.each('FileEntry::add_invalidation', 'a dependent is added to the file', lambda p: None if p.fact('discr(in(self.invalidations.0))') == MARK else
           True if any(s(e[2][0]) == 'in(self.invalidations.0)@1.0' and s(e[2][1]) == 'index' for e in p.calls('seq push')) else 'the dependent is not added')
    def intoiter(p):
        if p.fact('discr(in(self.0))') == MARK:
            return None
        its = list(sub(p.ret, lambda t: t[0] == 'it'))
        return True if len(its) == 1 and its[0][1] == 'src' and s(its[0][2]) == 'in(self.0)@1.0' and its[0][3] == 0 else 'not every dependent is handed out'
    R.each('Invalidations::into_iter', 'hands out every dependent', intoiter)
    def clone(p):
        if p.fact('discr(in(self.0))') == MARK:
            return None
        return True if s(p.ret) in ('Invalidations#0(Lock#0(in(self.0)))', 'Invalidations#0(Lock#0(InvalidationDetail#1(in(self.0)@1.0)))') else 'the clone is %s' % s(p.ret)[:100]
    R.each('<vfs::tree::Invalidations as core::clone::Clone>::clone', 'keeps the dependents', clone)
    R.each('<vfs::tree::InvalidationDetail<T> as core::default::Default>::default', 'is the empty set', lambda p: True if p.ret[0] == 'adt' and p.ret[2] == 1 - MARK else 'the default is %s' % s(p.ret))
    # --- entries created in place of missing ones
    ENT = 'mapget(in(self.0), name)'
    def ens(p):
        d, k = p.fact('discr(%s)' % ENT), p.fact('discr(%s@1.0)' % ENT)
        r = p.ret
        if r[0] != 'adt' or not r[1].endswith('AddedFile') or d is None:
            return None
        fl = dict(zip([f[0] for f in v.c.adts['vfs::tree::AddedFile']['v'][0]['f']], r[3]))
        inv, kind = s(fl['invalidations']), fl['kind']
        pay = s(kind[3][0]) if kind[0] == 'adt' else s(kind) + '@%s.0' % p.discr(kind)
        if d == 1 and k == MISS:
            lock = 'in(%s@1.0@%d.0.invalidations.0)' % (ENT, MISS)
            marked = p.fact('discr(%s)' % lock) == MARK
            if inv not in ('Invalidations#0(Lock#0(%s))' % lock,) + (('Invalidations#0(Lock#0(InvalidationDetail#%d()))' % MARK,) if marked else ()):
                return 'the files that were waiting for the file are forgotten: %s' % inv[:80]
            w = [x for a, x, e in p.writes() if a == 'slot(in(self.0), name)'] + [s(e[2][2]) for e in p.calls('map insert') if s(e[2][0]) == 'in(self.0)']
            return True if w and w[-1] == 'DirectoryEntry#%d(%s)' % (FILE, pay) else 'the missing entry is not replaced by the file'
        if d == 1 and k == FILE:
            return True if pay == '%s@1.0@%d.0' % (ENT, FILE) else 'the file of the tree is not the one that is handed out'
        if d == 0 and p.discr(kind) == 0:
            ins = [s(e[2][2]) for e in p.calls('map insert') if s(e[2][0]) == 'in(self.0)']
            return True if ins and ins[-1] == 'DirectoryEntry#%d(%s)' % (FILE, pay) else 'the new file is not put into the tree'
        return None
    R.each('Entries::ensure_file', 'files waiting for the new file are handed out', ens, need=3, opaque=('GitignoreFile::new',))
    SP = 'split_off_first_item(vfs, path)'
    DENT = 'mapget(in(entries.0), %s.0)' % SP
    def dirs(p):
        d, k = p.fact('discr(%s)' % DENT), p.fact('discr(%s@1.0)' % DENT)
        if d != 1 or k != MISS:
            return None
        lock = 'in(%s@1.0@%d.0.invalidations.0)' % (DENT, MISS)
        res = [e for e in p.calls('ensure_dirs_and_file', 'ensure_file')]
        if not res:
            return 'nothing is created below the new directory'
        if p.fact('discr(%s)' % lock) == MARK:
            return None
        if any(x == MARK for q, x in p.facts.items() if q.startswith('discr(in(ensure')):
            return None
        n, over, began = p.visited(lock + '@1.0')
        got = {s(e[2][1]) for e in p.calls('seq push')}
        kept = lock in s(p.ret) or any(lock in x and not a.startswith('in(mapget') for a, x, e in p.writes())
        if not began and not kept:
            return 'the files that were waiting for the new directory are forgotten'
        if not over and not kept:
            return 'files that were waiting for the new directory are left out'
        for i in range(n):
            if 'elem(%s@1.0, %d)' % (lock, i) not in got and not kept:
                return 'a file that was waiting for the new directory is forgotten'
        return True
    R.each('ensure_dirs_and_file', 'files waiting for the new directory are handed out', dirs, opaque=('ensure_dirs_and_file', 'Entries::ensure_file', 'entries_with_workspaces'))
    def missing(p):
        items = 'in(self.0)'
        M = 'mapget(%s, name)' % items
        d, k = p.fact('discr(%s)' % M), p.fact('discr(%s@1.0)' % M)
        if d == 1 and k in (MISS, FILE):
            lock = '%s@1.0@%d.0.invalidations.0' % (M, k)
            if p.fact('discr(in(%s))' % lock) == MARK:
                return None
            return True if any(s(e[2][0]) == 'in(%s)@1.0' % lock and s(e[2][1]) == 'index' for e in p.calls('seq push')) else 'the file is not noted as waiting for the entry'
        if d == 0:
            ins = [e for e in p.calls('map insert') if s(e[2][0]) == items]
            if not ins or s(ins[0][2][1]) != 'name':
                return 'nothing is noted for the missing name'
            val = s(ins[0][2][2])
            pushed = [e for e in p.calls('seq push') if s(e[2][1]) == 'index'] or 'index' in val
            return True if val.startswith('DirectoryEntry#%d(' % MISS) and pushed else 'the file is not noted as waiting for the missing entry'
        return None
    R.each('Entries::add_missing_entry_callback', 'a file that looks for a missing name is noted', missing, need=2, then=['name'])
    R.done(12)
