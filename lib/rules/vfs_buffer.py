"""C06: an open buffer is what everyone sees until it is closed."""
import re
from vfsflow import V, Rules, WALK, WALK2, s, T, norm, sub, strip
from rules.vfs_dep import variant

def run(rep):
    rep.rule('On every path: a file system event on an open buffer changes nothing; a loaded file is never read again; what is stored under a path is made from the given text and registered under that path; '
             'closing unregisters exactly that path and falls back to the file on disk; no event unloads an open buffer, and one that lost its entry gets it back.')
    v = V()
    R = Rules(rep, v)
    KF = variant(v, 'vfs::vfs::InMemoryKind', 'File', 0)
    KG = 1 - KF
    AF = variant(v, 'vfs::tree::AddedKind', 'FileEntry', 0)
    DB = variant(v, 'vfs::vfs::InvalidationResult', 'InvalidatedDb', 1)
    FILE = variant(v, 'vfs::tree::DirectoryEntry', 'File', 0)
    kw = dict(models=WALK)
    EFFECT = ('map insert', 'map remove', 'slot set', 'slot push', 'set', 'invalidate_files', 'invalidate_file_by_index', 'unload_file', 'ensure_file', 'callback', 'seq push', 'delete_directory', 'on_invalidated_in_memory_file')
    def touched(p):
        """effects on the path"""
        return ['%s(%s)' % (e[1].split('::')[-1], ', '.join(s(a) for a in e[2])[:80]) for e in p.calls(*EFFECT)] + ['%s := %s' % (a[:60], x[:40]) for a, x, e in p.writes()]
    def isdb(p):
        return p.ret[0] == 'adt' and p.ret[2] == DB
    # --- events
    def inmem_event(p):
        k = [(q, x) for q, x in p.facts.items() if re.match(r'discr\(mapget\(self\.in_memory_files, PathWithScheme#0\(', q)]
        if not k:
            return 'a file system event is processed without asking whether the path is an open buffer' if p.calls('read_and_watch_entry', 'search_potential_parent_for_invalidation') else None
        q, x = k[0]
        if q != 'discr(mapget(self.in_memory_files, PathWithScheme#0(normalize_path(self.handler.0, path), tls(LocalKey#0(())))))' and 'normalize_path(self.handler.0, path)' not in q:
            return 'the path of the event is looked up among the buffers as %s' % q[36:-2]
        if x != 1:
            return None
        t = touched(p)
        return True if not t and not isdb(p) and not p.calls('read_and_watch_entry') else 'a file system event on an open buffer has an effect: %s' % '; '.join(t)[:200]
    R.each('Vfs::invalidate_path', 'events on an open buffer are ignored', inmem_event, **kw)
    def inmem_kept(p):
        """an index found to be that of an open buffer is not unloaded; its entry is ensured and gets the index"""
        un = {a[len('in(slot(self.files, '):-len('.0).file)')] for a, x, e in p.writes() if a.startswith('in(slot(self.files, ') and a.endswith('.0).file)') and x.startswith('Option#0')}
        bad, n = None, 0
        found = [k[6:-1] for k, x in p.facts.items() if x == 1 and re.match(r'discr\(in\(within\(.*\)@%d\.0\.file_index\)\)$' % FILE, k)]
        for f in found:
            idx = f + '@1.0'
            eqs = {q: x for q, x in p.facts.items() if q.startswith('eq(') and idx in q and 'self.in_memory_files' in q}
            hit = [re.search(r'value\(self\.in_memory_files, (\d+)\)', q).group(1) for q, x in eqs.items() if x == 1 and 'value(self.in_memory_files' in q]
            if not hit:
                m, over, _ = p.visited('self.in_memory_files')
                if idx in un and not over:
                    return 'a file is unloaded without asking for every open buffer whether it is the one'
                continue
            n += 1
            if idx in un or 'value(self.in_memory_files, %s)@%d.0' % (hit[0], KF) in un:
                return 'an open buffer below the changed entry is unloaded'
            if isdb(p):
                continue
            key = 'key(self.in_memory_files, %s)' % hit[0]
            ens = [e for e in p.calls('ensure_file') if s(e[2][3]) == key]
            if not ens:
                return 'the entry of an open buffer below the changed entry is lost'
            if p.discr(T('fld', ens[0][3], 'kind', None)) is None:
                pass
            E = s(ens[0][3])
            if p.fact('discr(%s.kind)' % E) == AF:
                slot = '%s.kind@%d.0.file_index' % (E, AF)
                d = p.fact('discr(in(%s))' % slot)
                w = [x for a, x, e in p.writes() if a == 'in(%s)' % slot]
                if d != 1 and not (w and (w[-1] == 'Option#1(%s)' % idx or 'value(self.in_memory_files, %s)@%d.0' % (hit[0], KF) in w[-1])):
                    return 'the new entry of the open buffer does not get its index'
                if not any(s(e[2][1]) == key for e in p.calls('on_invalidated_in_memory_file')):
                    return 'the open buffer is not announced'
        return True if n else None
    R.each('Vfs::invalidate_path', 'open buffers below a changed directory stay', inmem_kept, **kw)
    R.each('Vfs::invalidate_path', 'open buffers below a changed directory stay (two)', inmem_kept, models=WALK2)
    # --- loading
    FN = 'Vfs::ensure_file_for_file_entry_with_conditional'
    IDX = 'in(entry.file_index)@1.0'
    SLOT = 'slot(self.files, %s.0)' % IDX
    def loaded(p):
        if p.fact('discr(in(%s.file))' % SLOT) != 1:
            return None
        t = touched(p)
        if t or p.calls('read_and_watch_file'):
            return 'a loaded file is read or made again: %s' % '; '.join(t)[:160]
        return True if s(p.ret) in ('Option#1(%s)' % IDX, 'in(entry.file_index)') else 'the loaded file is not handed out: %s' % s(p.ret)[:80]
    R.each(FN, 'a loaded file (such as an open buffer) is not read again', loaded)
    def fill(p):
        rd = p.calls('read_and_watch_file')
        if not rd:
            return None
        if p.fact('discr(in(entry.file_index))') == 1:
            want = SLOT + '.path'
        else:
            want = 'absolute_path(entry, self.handler.0)'
        if s(rd[0][2][1]) != want:
            return 'the file is read from %s' % s(rd[0][2][1])[:80]
        code = s(rd[0][3]) + '@1.0'
        ok = p.discr(rd[0][3]) == 1 and not any(q.startswith('callback(flag') and x == 0 for q, x in p.facts.items())
        t = touched(p)
        if not ok:
            t = [x for x in t if not x.startswith('callback(flag')]
            return True if not t and s(p.ret).startswith('Option#0') else 'a file that is missing or not wanted is loaded: %s -> %s' % (t[:2], s(p.ret)[:60])
        mk = [e for e in p.calls('callback') if s(e[2][0]) == 'make']
        if len(mk) != 1 or s(mk[0][2][2]) != code:
            return 'the file is not made from what was read'
        idx = s(mk[0][2][1])
        if s(p.ret) not in ('Option#1(%s)' % idx, idx.rsplit('@1.0', 1)[0]):
            return 'the index handed out (%s) is not that of the file (%s)' % (s(p.ret)[:60], idx[:60])
        st = [e for e in p.calls('set', 'slot set') if s(e[2][1]) == s(mk[0][3]) or s(mk[0][3]) in s(e[2][1])]
        return True if st else 'the file that was made is not stored'
    R.each(FN, 'a file is made from what is read at its path', fill, need=3)
    # --- storing
    ENS = 'ensure_file(self.workspaces, self.handler.0, flag, path, code.0)'
    HAVE = 'mapget(self.in_memory_files, path)'
    def made(p):
        return [e for e in p.calls('callback') if s(e[2][0]) == 'make']
    def stored(p):
        k = p.fact('discr(%s.kind)' % ENS)
        if not p.calls('ensure_file') or s(p.calls('ensure_file')[0][3]) != ENS:
            return 'the entry of the buffer is not looked up by its path'
        ins = [e for e in p.calls('map insert') if s(e[2][0]) == 'self.in_memory_files']
        had = p.fact('discr(%s)' % HAVE)
        ret = p.ret[1][0] if p.ret[0] == 'tup' else None
        if k is None or ret is None:
            return None
        if k != AF:
            ok = [e for e in ins if s(e[2][1]) == 'path' and (s(e[2][2]) == 'InMemoryKind#%d(%s.kind@%d.0)' % (KG, ENS, k) or s(e[2][2]) == ENS + '.kind')]
            return True if ok else 'an edited .gitignore is not registered as a buffer'
        hadfile = had == 1 and p.fact('discr(%s@1.0)' % HAVE) == KF
        idx = '%s@1.0@%d.0' % (HAVE, KF) if hadfile else None
        mk = made(p)
        if mk:
            idx = s(mk[0][2][1])
            if len(mk) > 1:
                return 'the buffer is made twice'
            if s(mk[0][2][3]) != 'code':
                return 'the buffer is made from %s' % s(mk[0][2][3])[:60]
            if s(mk[0][2][2]) != '%s.kind@%d.0' % (ENS, AF):
                return 'the buffer is made for the entry %s' % s(mk[0][2][2])[:60]
            val = s(mk[0][3])
            put = [e for e in p.calls('slot set', 'set') if val in s(e[2][1])]
            if not put:
                return 'the new contents are not stored'
            e = put[-1]
            if e[1] == 'slot set' and not s(e[2][0]) == 'slot(self.files, %s.0)' % idx:
                return 'the new contents are stored as %s, not as %s' % (s(e[2][0])[:60], idx[:60])
            fs = e[2][1]
            if e[1] == 'slot set' and fs[0] == 'adt':
                f = dict(zip([q[0] for q in v.c.adts['vfs::vfs::FileState']['v'][0]['f']], fs[3]))
                from vfsflow import REN
                f = {REN.get(a, a): s(b) for a, b in f.items()}
                if f.get('path') != 'path':
                    return 'the buffer is stored with the path %s' % f.get('path')
                if f.get('file_entry') != '%s.kind@%d.0' % (ENS, AF):
                    return 'the buffer is stored with another entry'
        else:
            if idx is None:
                idx = 'in(%s.kind@%d.0.file_index)@1.0' % (ENS, AF)
        reg = hadfile or any(s(e[2][1]) == 'path' and s(e[2][2]) == 'InMemoryKind#%d(%s)' % (KF, idx) for e in ins)
        if not reg:
            return 'the buffer is not registered under its path (%s)' % '; '.join(s(e[2][2])[:60] for e in ins)
        if any(s(e[2][1]) != 'path' for e in ins):
            return 'another path is registered as a buffer'
        if s(ret) not in ('Option#1(%s)' % idx, idx.rsplit('@1.0', 1)[0]):
            return 'the index handed out (%s) is not that of the buffer (%s)' % (s(ret)[:60], idx[:60])
        return True
    R.each('Vfs::store_in_memory_file', 'the buffer is made from the given text and registered under its path', stored, need=5, **kw)
    def announce(p):
        if p.fact('discr(%s.kind)' % ENS) != AF:
            return None
        return True if any(s(e[2][1]) == 'path' for e in p.calls('on_invalidated_in_memory_file')) else 'the stored buffer is not announced'
    R.each('Vfs::store_in_memory_file', 'the stored buffer is announced', announce, **kw)
    # --- closing
    def closing(p):
        d = p.fact('discr(%s)' % HAVE)
        rem = [e for e in p.calls('map remove') if s(e[2][0]) == 'self.in_memory_files']
        if any(s(e[2][1]) != 'path' for e in rem):
            return 'another buffer is unregistered'
        if p.ret[0] != 'adt':
            return None
        if d == 0:
            t = [x for x in touched(p) if not x.startswith('map remove(self.in_memory_files, path')]
            return True if p.ret[2] == 1 and not t else 'closing a path that is not open has an effect, or is not an error: %s' % '; '.join(t)[:160]
        if d is None:
            return None
        if not rem:
            return 'the closed buffer stays registered'
        if p.ret[2] == 1:
            return 'closing an open buffer is an error'
        rd = p.calls('read_and_watch_file')
        if not rd or s(rd[0][2][1]) != 'path':
            return 'the file on disk is not looked at'
        kind = p.fact('discr(%s@1.0)' % HAVE)
        on = p.discr(rd[0][3]) == 1
        disk = s(rd[0][3]) + '@1.0'
        if kind == KF:
            slot = 'slot(self.files, %s@1.0@%d.0.0)' % (HAVE, KF)
            w = [x for a, x, e in p.writes() if a == 'in(%s.file)' % slot]
            mk = made(p)
            if not on:
                return True if w and w[-1].startswith('Option#0') and not mk else 'a buffer that is nowhere on disk stays loaded'
            if p.same_code(slot):
                return True if not mk and not w else 'a buffer with the contents of the file on disk is made again'
            if len(mk) != 1 or s(mk[0][2][3]) != disk:
                return 'the contents on disk do not replace those of the closed buffer'
            return True if w and w[-1] == 'Option#1(%s)' % s(mk[0][3]) else 'the contents on disk are not stored'
        if kind == KG:
            parent = '%s@1.0@%d.0.parent' % (HAVE, KG)
            ents = 'in(entries(%s).0)' % parent
            if not on:
                return True if any(s(e[2][0]) == ents and s(e[2][1]) == "'.gitignore'" for e in p.calls('map remove')) else 'a closed .gitignore that is not on disk stays in force'
            if p.fact("discr(mapget(%s, '.gitignore'))" % ents) == 0:
                return None
            w = [x for a, x, e in p.writes() if a == "slot(%s, '.gitignore')" % ents]
            return True if w and disk in w[-1] else 'the .gitignore on disk does not replace that of the closed buffer'
        return None
    R.each('Vfs::close_in_memory_file', 'the file on disk takes over', closing, need=5, **kw)
    # --- queries
    R.each('Vfs::in_memory_file', 'tells the index of an open buffer', lambda p:
           True if s(p.ret) == ('Option#1(%s@1.0@%d.0)' % (HAVE, KF) if p.fact('discr(%s)' % HAVE) == 1 and p.fact('discr(%s@1.0)' % HAVE) == KF else 'Option#0()')
           else '%s is returned' % s(p.ret)[:80], need=2)
    def ids(p):
        n, over, began = p.visited('self.in_memory_files')
        if not over:
            return 'open buffers are left out'
        want = []
        for i in range(n):
            k = p.fact('discr(value(self.in_memory_files, %d))' % i)
            if k is None:
                return 'the kind of a buffer is not looked at'
            if k == KF:
                want.append('value(self.in_memory_files, %d)@%d.0' % (i, KF))
        got = [s(x) for x in p.ret[1]]
        return True if sorted(got) == sorted(want) else 'the open buffers %s are listed as %s' % (want, got)
    R.each('Vfs::in_memory_file_ids', 'lists exactly the open files', ids, need=2, drain=True)
    # --- deleting a directory of buffers
    def deldir(p):
        n, over, began = p.visited('self.in_memory_files')
        if not over:
            return 'open buffers are left out'
        cl = p.calls('close_in_memory_file')
        for i in range(n):
            key = 'key(self.in_memory_files, %d)' % i
            sch = [x for q, x in p.facts.items() if q.startswith('eq(') and key + '.scheme' in q and 'path.scheme' in q]
            st = [(q, x) for q, x in p.facts.items() if q.startswith('discr(strip_prefix(%s.path' % key)]
            sep = [(q, x) for q, x in p.facts.items() if q.startswith('discr(strip_separator_prefix(self.handler.0, strip_prefix(%s.path' % key)]
            closed = any(s(e[2][2]) == key for e in cl)
            inside = sch == [1] and len(st) == 1 and st[0][1] == 1 and 'path.path' in st[0][0].split(', ')[-1] and len(sep) == 1 and sep[0][1] == 1
            if closed and not inside:
                return 'a buffer is closed that is not known to lie below the directory'
            if not closed and inside:
                return 'a buffer below the directory stays open'
            if not closed and not (0 in sch or any(x == 0 for q, x in st) or any(x == 0 for q, x in sep)):
                return 'a buffer that can lie below the directory stays open'
        d = p.calls('delete_directory')
        if not d or s(d[0][2][3]) != 'path':
            return 'the directory is not deleted'
        return True
    R.each('Vfs::delete_in_memory_files_directory', 'exactly the buffers below the directory are closed', deldir, opaque=V.OPAQUE + ('close_in_memory_file',))
    R.done(5)
