"""C12: nothing that was loaded is lost when the server recovers from a panic."""
import re
from vfsflow import V, Rules, WALK, s, REN
from rules.vfs_dep import variant

def run(rep):
    rep.rule('On every path of taking the files out of a crashed file system: each loaded file that is not a sub file is handed over once, with its path, its artifacts, whether it is an open buffer and whether it concerns the whole database, and open buffers are announced; '
             'on every path of loading them: each gets the entry of its path, is made from its own artifacts under the index of that entry, keeps the mark, and is registered as a buffer under its path exactly if it was one.')
    v = V()
    R = Rules(rep, v)
    kw = dict(models=WALK)
    KF = variant(v, 'vfs::vfs::InMemoryKind', 'File', 0)
    AF = variant(v, 'vfs::tree::AddedKind', 'FileEntry', 0)
    DB = variant(v, 'vfs::tree::InvalidationDetail', 'InvalidatesDb', 0)
    adt = v.c.adts.get('vfs::vfs::RecoveryFile')
    fields = [f[0] for f in adt['v'][0]['f']] if adt else []
    known = {'path', 'artifacts', 'invalidates_db', 'is_in_memory_file'} == set(fields)
    SEQ = 'into_inner(in(self.files.vec))'
    def out(p):
        if not known or p.ret[0] != 'adt' or p.ret[1].split('::')[-1].split('<')[0] != 'VfsPanicRecovery':
            return None
        lst = p.ret[3][0]
        n, over, began = p.visited(SEQ)
        if not began:
            return 'the files are not looked at' if not any(k.startswith('more(') and 'self.files' in k for k in p.facts) else None
        if not over:
            return 'not every file is looked at'
        if lst[0] == 'seq' and lst[1] is None:
            got = [x for x in lst[2]]
        elif lst[0] == 'arr':
            got = list(lst[1])
        else:
            return None
        rec = []
        for g in got:
            if g[0] != 'adt':
                return None
            rec.append({f: s(p.F.resolve(p.st, x)) for f, x in zip(fields, g[3])})
        said = [s(e[2][1]) for e in p.calls('on_invalidated_in_memory_file')]
        left = list(rec)
        for i in range(n):
            E = 'elem(%s, %d).0' % (SEQ, i)
            sub = p.fact('is_empty(%s.path.scheme.0)' % E)
            mem = p.fact('discr(mapget(self.in_memory_files, %s.path))' % E)
            loaded = p.fact('discr(in(%s.file))' % E)
            mine = [r for r in left if r['path'] == E + '.path']
            left = [r for r in left if r not in mine]
            if sub == 1:
                if mine:
                    return 'a sub file, which has no path, is handed over'
                continue
            if sub is None and mine:
                if any(E + '.path.scheme' in k for k in p.facts):
                    return None
                return 'a file is handed over without looking whether it is a sub file, which has no path'
            if loaded == 0:
                if mine:
                    return 'a file that is not loaded is handed over'
                continue
            if loaded is None:
                return None if mine else 'a file is left out without looking whether it is loaded'
            if len(mine) != 1:
                return 'a loaded file is handed over %d times' % len(mine)
            r = mine[0]
            if r['artifacts'] != 'into_recoverable_artifacts(in(%s.file)@1.0)' % E:
                return 'the artifacts handed over are %s' % r['artifacts'][:80]
            if mem is None:
                return None
            if r['is_in_memory_file'] not in (str(mem), 'discr(mapget(self.in_memory_files, %s.path))' % E):
                return 'an open buffer is handed over as a plain file' if mem else 'a plain file is handed over as an open buffer'
            db = p.fact('discr(in(%s.file_entry.invalidations.0))' % E)
            if db is not None and r['invalidates_db'] in ('0', '1') and int(r['invalidates_db']) != int(db == DB):
                return 'that a change of the file concerns the whole database is lost' if db == DB else 'a plain file is handed over as one that concerns the whole database'
            if db is None and r['invalidates_db'] in ('0', '1'):
                return 'whether the file concerns the whole database is not looked at'
            if (E + '.path' in said) != bool(mem):
                return 'an open buffer is not announced' if mem else 'a file that is not open is announced as a buffer'
        if left:
            return 'something else is handed over: %s' % left[0]['path'][:80]
        return True
    R.each('Vfs::into_panic_recovery', 'every loaded file is handed over as it is', out, need=20, **kw)
    RF = 'recovery.files'
    def isbuf(e):
        return re.match(r'(mapins\(|maprem\()*self\.in_memory_files\b', s(e[2][0]))
    def load(p):
        if not known:
            return None
        n, over, began = p.visited(RF)
        if not began or not over:
            return 'not every file that was handed over is loaded'
        used = []
        for i in range(n):
            F = 'elem(%s, %d)' % (RF, i)
            ens = [e for e in p.calls('ensure_file') if s(e[2][3]) == F + '.path']
            if not ens:
                return 'the entry of a recovered file is not looked up by its path'
            if s(ens[0][2][2]) != 'flag':
                return 'the case of the path is not treated as asked for'
            E = s(ens[0][3])
            if p.fact('discr(%s.kind)' % E) != AF:
                continue
            entry = '%s.kind@%d.0' % (E, AF)
            mk = [e for e in p.calls('callback') if s(e[2][0]) == 'make' and s(e[2][-1]) == F + '.artifacts']
            if len(mk) != 1:
                return 'a recovered file is made %d times from its artifacts' % len(mk)
            idx, ent = s(mk[0][2][1]), s(mk[0][2][2])
            if ent != entry:
                return 'a recovered file is made for the entry %s' % ent[:80]
            val = s(mk[0][3])
            had = p.fact('discr(in(%s.file_index))' % entry)
            if had == 1:        # a fresh tree has no indices: not a path that can be taken
                return None
            if had == 0:
                ps = [e for e in p.calls('slot push') if 'FileIndex#0(%s' % s(e[2][0])[len('slot(self.files, '):-1] in idx]
                if len(ps) != 1:
                    return 'the index of a recovered file is not that of a state that was added'
                st = ps[0][2][1]
                if st[0] == 'adt':
                    f = {REN.get(a, a): s(b) for a, b in zip([q[0] for q in v.c.adts['vfs::vfs::FileState']['v'][0]['f']], st[3])}
                    if f.get('path') != F + '.path':
                        return 'a recovered file gets the path %s' % f.get('path')
                    if f.get('file_entry') != entry:
                        return 'the state of a recovered file belongs to another entry'
                w = [x for a, x, e in p.writes() if a == 'in(%s.file_index)' % entry]
                if not w or w[-1] != 'Option#1(%s)' % idx:
                    return 'the entry of a recovered file does not get its index'
                mark = any(a == 'in(%s.invalidations.0)' % entry and x.startswith('InvalidationDetail#%d' % DB) for a, x, e in p.writes())
                db = p.fact(F + '.invalidates_db')
                was = p.fact('discr(in(%s.invalidations.0))' % entry)
                if db == 1 and not mark and was != DB:
                    return 'a recovered file that concerns the whole database is not marked'
                if db == 0 and mark:
                    return 'a recovered file is marked as concerning the whole database'
                if db is None and not mark and was != DB:
                    return 'whether the recovered file concerns the whole database is not asked'
            if not any(val in s(e[2][1]) for e in p.calls('set', 'slot set')) and not any(val in x for a, x, e in p.writes()):
                return 'the recovered file is not stored'
            mem = p.fact(F + '.is_in_memory_file')
            ins = [e for e in p.calls('map insert') if isbuf(e) and s(e[2][2]) == 'InMemoryKind#%d(%s)' % (KF, idx)]
            used += ins
            if mem is None:
                return 'whether the recovered file is an open buffer is not asked'
            if bool(ins) != bool(mem):
                return 'a recovered open buffer is not registered as one' if mem else 'a recovered plain file is registered as an open buffer'
            if ins and s(ins[0][2][1]) != F + '.path':
                return 'a recovered buffer is registered under %s' % s(ins[0][2][1])[:80]
        extra = [e for e in p.calls('map insert', 'map remove') if isbuf(e) and e not in used]
        return 'something else is registered as a buffer' if extra else True
    R.each('Vfs::load_panic_recovery', 'every file handed over is loaded as it was', load, need=20, **kw)
    R.done(2)
