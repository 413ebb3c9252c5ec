"""C08: what is taken from disk is watched first and is what lies there."""
import re
from vfsflow import V, Rules, s, T
from rules.vfs_dep import variant

def run(rep):
    rep.rule('On every path of the functions that read from disk: the path is watched before it is read; every listed entry is entered under its own name with the kind of what it leads to, or is one of those that are left out; '
             'links are followed from their own directory, each one watched, and refused when they lead back; an event is only dropped for a directory that still is one.')
    v = V()
    R = Rules(rep, v)
    E = 'vfs::tree::DirectoryEntry'
    FILE, DIR, MISS, GIT = (variant(v, E, n, i) for i, n in enumerate(('File', 'Directory', 'MissingEntry', 'Gitignore')))
    RF, RD = variant(v, 'vfs::local_fs::ResolvedFileType', 'File', 0), variant(v, 'vfs::local_fs::ResolvedFileType', 'Directory', 1)
    NEST = variant(v, 'vfs::tree::DirEntries', 'NestedWorkspace', 1)
    NONE = 'Option#0()'
    O = ('LocalFS::watch', 'into_dir_entry', 'follow_and_watch_symlink', 'follow_symlink_internal', 'resolve_link', 'FileEntry::absolute_path', 'Directory::absolute_path', 'GitignoreFile::new', 'read_and_watch_file')
    def ret(p):
        return s(p.ret)
    def calls(p, *names):
        return ['%s(%s)' % (e[1].split('::')[-1], ', '.join(s(a) for a in e[2])) for e in p.calls(*names)]
    FSREAD = ('read_to_string', 'read', 'read_dir', 'open', 'symlink_metadata', 'metadata', 'read_link', 'canonicalize')
    # --- files
    def file_read(p):
        sc = [x for k, x in p.facts.items() if k in ("eq(path.scheme.0, 'file')", "eq('file', path.scheme.0)")]
        rd = [e for e in p.calls(*FSREAD)]
        if not rd:
            if sc and sc[0] == 1:
                return 'a file is not read'
            return True if ret(p) == NONE else None
        if not sc or sc[0] != 1:
            return 'a path that is not of the scheme file is read'
        w = [e for e in p.calls('watch') if s(e[2][1]) == 'path.path.0.0']
        if not w or p.pos(w[0]) > p.pos(rd[0]):
            return 'the file is read before (or without) being watched'
        if any(s(e[2][0]) != 'path.path.0.0' for e in rd):
            return 'another path is read: %s' % s(rd[0][2][0])
        t = 'read_to_string(path.path.0.0)'
        if p.calls('read_to_string'):
            d = p.fact('discr(%s)' % t)
            want = 'Option#1(%s@0.0)' % t if d == 0 else NONE
            if d is not None and ret(p) != want:
                return 'the result is %s' % ret(p)[:100]
        return True
    R.each('read_and_watch_file', 'a file is watched, then read; nothing else is', file_read, need=3, opaque=tuple(o for o in O if o != 'read_and_watch_file'))
    # --- one entry
    M = 'symlink_metadata(path)'
    def one(d):
        if d(M, 2):
            return (NONE, ())
        m = M + '@0.0'
        rest = 'workspaces, self, parent, replace_name'
        k = d.kind(m)
        if k == 'dir':
            return ('into_dir_entry(ResolvedFileType#%d(), %s)' % (RD, rest), ('watch(self, path)',))
        if k == 'link':
            f = 'follow_and_watch_symlink(self, path)'
            if d(f, 2):
                return (NONE, (f,))
            return ('into_dir_entry(%s@0.0, %s)' % (f, rest), (f,))
        return ('into_dir_entry(ResolvedFileType#%d(), %s)' % (RF, rest), ('watch(self, path)',))
    def meta(want):
        return lambda d: want(d) if d.p.calls('symlink_metadata') else None
    R.spec('read_and_watch_entry', 'an entry is what lies on disk, and is watched', meta(one), lambda p: (ret(p), tuple(calls(p, 'watch', 'follow_and_watch_symlink'))), need=4, opaque=O, labels=['self', 'workspaces', 'path', 'parent', 'replace_name'])
    R.each('read_and_watch_entry', 'a link is not mistaken for what it leads to', lambda p: 'the kind of the entry is asked of the target of a link' if p.calls('metadata') and not p.calls('symlink_metadata') else True, need=1, opaque=O)
    # --- directories
    IT = 'read_dir(path)@0.0'
    def listing(p):
        rd = p.calls('read_dir')
        w = [e for e in p.calls('watch') if s(e[2][1]) == 'path']
        if not rd:
            return None
        if not w or p.pos(w[0]) > p.pos(rd[0]):
            return 'the directory is listed before (or without) being watched'
        return True if s(rd[0][2][0]) == 'path' else 'another directory is listed: %s' % s(rd[0][2][0])
    R.each('read_and_watch_dir', 'a directory is watched, then listed', listing, need=10, opaque=O, labels=['self', 'workspaces', 'path', 'parent'])
    def expected(d):
        if d('read_dir(path)', 2):
            return ()
        out = []
        for i in range(3):
            if not d.more(IT, i):
                return tuple(out)
            e = 'elem(%s, %d)' % (IT, i)
            if d(e, 2):
                continue
            n = 'into_string(file_name(%s@0.0))' % e
            t = 'file_type(%s@0.0)' % e
            if d(n, 2) or d(t, 2):
                continue
            what = d.kind(t + '@0.0')
            if what == 'dir':
                kind = ('ResolvedFileType#%d()' % RD, RD)
            elif what == 'link':
                f = 'follow_and_watch_symlink(self, path(%s@0.0))' % e
                if d(f, 2):
                    continue
                kind = (f + '@0.0', None)
            else:
                kind = ('ResolvedFileType#%d()' % RF, RF)
            if d.eq(n + '@0.0', "'.gitignore'"):
                k = kind[1] if kind[1] is not None else d(kind[0], 2)
                if k == RF:
                    out.append((n + '@0.0', 'gitignore', e))
                    continue
            x = 'into_dir_entry(%s, workspaces, self, parent, %s@0.0)' % (kind[0], n)
            if d(x, 2):
                out.append((n + '@0.0', x + '@1.0', e))
        return None
    def entered(p):
        return [(s(e[2][1]), s(e[2][2]), e) for e in p.calls('map insert')]
    asks = any(q.calls('file_type') for q in R.paths('read_and_watch_dir', opaque=O, labels=['self', 'workspaces', 'path', 'parent']) or ())
    def check(d):
        want = expected(d)
        if want is None:
            return None
        def ok(p):
            got, i = entered(p), 0
            for key, val, e in want:
                if val == 'gitignore':
                    reads = [(k[6:-1], x) for k, x in p.facts.items() if k.startswith('discr(read_and_watch_file(self, absolute_path(FileEntry#0(') and key in k]
                    if not reads:
                        return 'the contents of .gitignore to be read'
                    if reads[-1][1] == 0:
                        continue
                    val = 'DirectoryEntry#%d(new(parent, path(%s@0.0)' % (GIT, e)
                    if i >= len(got) or got[i][0] != key or not got[i][1].startswith(val) or reads[-1][0] + '@1.0' not in got[i][1]:
                        return 'the .gitignore file with the text that was read'
                elif i >= len(got) or got[i][:2] != (key, val):
                    return 'an entry %s = %s' % (key[:60], val[:60])
                i += 1
            if i != len(got):
                return 'no entry %s' % got[i][0][:80]
            return True
        return ok
    R.spec('read_and_watch_dir', 'every entry of the directory is entered under its name, by what it leads to', lambda d: check(d) if asks else None, lambda p: p, need=50, opaque=O, labels=['self', 'workspaces', 'path', 'parent'])
    def result(p):
        if not p.calls('read_dir'):
            return None
        ins = p.calls('map insert')
        r = ret(p)
        for e in ins:
            if s(e[2][1]) not in r:
                return 'an entry that was found is not part of the result'
        return True
    R.each('read_and_watch_dir', 'all entries found are handed back', result, need=10, opaque=O, labels=['self', 'workspaces', 'path', 'parent'])
    # --- kinds
    IGN = {'site-packages', 'node_modules', '__pycache__'}
    def ignored(p):
        dot = [x for k, x in p.facts.items() if k in ('starts_with(name, 46)', "starts_with(name, '.')")]
        con = [(k, x) for k, x in p.facts.items() if re.match(r"contains\(\(.*\), name\)$", k)]
        eqs = {re.sub(r"^eq\((?:name, )?'?|'?(?:, name)?\)$", '', k): x for k, x in p.facts.items() if re.match(r"eq\((name, '.*'|'.*', name)\)$", k)}
        hit = None
        if dot and dot[0] == 1:
            hit = True
        elif con:
            names = set(re.findall(r"'([^']*)'", con[0][0]))
            if names != IGN:
                return 'the folders left out are %s' % ', '.join(sorted(names))
            hit = con[0][1] == 1 or None
            if con[0][1] == 0 and dot:
                hit = False
        elif eqs:
            hit = True if any(x == 1 and k in IGN for k, x in eqs.items()) else False if set(eqs) >= IGN and dot else None
        if hit is True:
            return True if ret(p) == NONE else 'a name to be left out gets an entry'
        if hit is False:
            return True if ret(p) != NONE else 'a name gets no entry though it is not among those left out'
        return None if not (con or eqs or dot) else 'a name is entered without asking for all the names to be left out' if ret(p) != NONE and (con or eqs) and not dot else None
    R.each('into_dir_entry', 'hidden files and the folders of dependencies are left out, everything else is not', ignored, need=6, opaque=O, labels=['self', 'workspaces', 'vfs', 'parent', 'name'])
    def kind(p):
        d = p.discr(T('arg', 'self'))
        r = p.ret
        if ret(p) == NONE:
            return None
        e = r[3][0]
        if e[0] != 'adt' or e[1].split('::')[-1] != 'DirectoryEntry':
            return None
        if d == RF and e[2] != FILE or d == RD and e[2] != DIR:
            return 'the entry is of another kind than what lies on disk'
        if d is None:
            return 'the kind of the entry does not depend on what lies on disk'
        fl = [f[0] for f in v.c.adts['vfs::tree::FileEntry' if d == RF else 'vfs::tree::Directory']['v'][0]['f']]
        from vfsflow import REN
        vals = {REN.get(n, n): s(x) for n, x in zip(fl, e[3][0][3])}
        if vals.get('name') != 'name' or vals.get('parent') != 'parent':
            return 'the entry does not get the name and parent it was found under'
        return True
    R.each('into_dir_entry', 'the entry is of the kind, name and parent that were found', kind, need=6, opaque=O, labels=['self', 'workspaces', 'vfs', 'parent', 'name'])
    def nested(p):
        if p.discr(T('arg', 'self')) != RD or ret(p) == NONE:
            return None
        want = None
        n, over, _ = p.visited('workspaces')
        for i in range(n):
            w = 'elem(workspaces, %d)' % i
            ends = p.fact('ends_with(%s.root_path.0.0, name)' % w)
            a = [x for k, x in p.facts.items() if k.startswith('eq(') and 'absolute_path(Directory#' in k and '.path' in k and w + '.root_path' in k]
            b = [x for k, x in p.facts.items() if k.startswith('eq(') and 'absolute_path(Directory#' in k and '.scheme' in k and w + '.scheme' in k]
            if ends == 0 or 0 in a or 0 in b:
                continue
            if a and b:
                want = w
                break
            return 'a workspace is taken for the directory without comparing its root and scheme' if p.calls('set') else None
        else:
            if not over and not p.calls('set'):
                return 'not every workspace is asked whether the directory is its root'
        sets = p.calls('set')
        if want is None:
            return True if not sets else 'a directory that is no root of a workspace is linked to one'
        return True if len(sets) == 1 and s(sets[0][2][1]) == 'DirEntries#%d(Weak#0(%s))' % (NEST, want) else 'the root of another workspace is not linked to it'
    R.each('into_dir_entry', 'the root of another workspace is linked to it', nested, need=6, opaque=O, labels=['self', 'workspaces', 'vfs', 'parent', 'name'])
    # --- links
    FS = 'follow_symlink_internal'
    init = {}
    for q in R.paths('follow_and_watch_symlink', opaque=O) or ():
        for e in q.calls(FS):
            f = v.c.fns[v.find(FS)]
            for lab, a in zip(v.label(f), e[2]):
                if a[0] == 'i':
                    init[lab] = a[1]
    def refused(p):
        """is a link refused although the count is still where it begins?"""
        for k, x in p.facts.items():
            m = re.match(r'(lt|eq)\((\w+), (\w+)\)$', k)
            if m and init:
                a, b = [int(z) if z.isdigit() else init.get(z) for z in m.groups()[1:]]
                if a is not None and b is not None:
                    return True if (a < b if m.group(1) == 'lt' else a == b) != bool(x) else 'the first link is refused'
        return None
    def link(p):
        w = [e for e in p.calls('watch') if s(e[2][1]) == 'path']
        rl = p.calls('resolve_link')
        if not rl:
            if p.ret[0] != 'adt' or p.ret[2] != 1:
                return 'a link is accepted without being followed'
            early = refused(p)
            return True if early is None else early
        if not w or p.pos(w[0]) > p.pos(rl[0]):
            return 'a link is followed before (or without) being watched'
        if s(rl[0][2][0]) != 'path':
            return 'another link is followed'
        L = s(rl[0][3])
        err = p.ret[0] == 'adt' and p.ret[1].split('::')[-1] == 'Result' and p.ret[2] == 1
        if p.fact('discr(%s)' % L) == 1:
            return True
        t = L + '@0.0'
        sm = 'symlink_metadata(%s)' % t
        if not p.calls('symlink_metadata'):
            return None if not p.calls('metadata') else 'the kind of the target is asked through further links that are not watched'
        if p.fact('discr(%s)' % sm) == 1:
            return True if err or ret(p).startswith('Result#1') else 'a link without target gets an entry'
        isd = [x for k, x in p.facts.items() if k.startswith('is_dir(') and t in k]
        isl = [x for k, x in p.facts.items() if k.startswith('is_symlink(') and t in k]
        rec = p.calls(FS)
        if isd and isd[0] == 1:
            if err:
                return True
            if ret(p) != 'Result#0(ResolvedFileType#%d())' % RD:
                return 'a link to a directory is taken for %s' % ret(p)[:60]
            H = 'from_path(%s)@0.0' % t
            A = 'ancestors(origin_path)'
            n, over, _ = p.visited(A)
            if not over:
                return 'a link to a directory is accepted without looking for it among all directories above the link'
            for i in range(1, n):
                h = 'from_path(elem(%s, %d))' % (A, i)
                q = [x for k, x in p.facts.items() if k in ('eq(%s@0.0, %s)' % (h, H), 'eq(%s, %s@0.0)' % (H, h))]
                if p.fact('discr(%s)' % h) == 1:
                    continue
                if not q:
                    return 'a link to a directory is accepted without comparing it with a directory above the link'
                if q[0] == 1:
                    return 'a link that leads to a directory above itself is accepted'
            return True
        if isl and isl[0] == 1:
            if err:
                return refused(p)
            if len(rec) != 1 or ret(p) != s(rec[0][3]):
                return 'a link to a link is not followed'
            a = [s(x) for x in rec[0][2]]
            if a[:3] != ['self', 'origin_path', t]:
                return 'a link to a link is followed with %s' % ', '.join(a[:3])[:150]
            more = a[3:]
            if not more:
                return 'links that point to each other are followed without end'
            grow = [(i, x) for i, x in enumerate(more) if re.match(r'bin\((Add|Sub), a?\w+, 1\)$', x)]
            if not grow:
                return 'links that point to each other are followed without end: nothing counts them'
            i, x = grow[0]
            op, arg = re.match(r'bin\((Add|Sub), (\w+), 1\)$', x).groups()
            lim = [k for k in p.facts if re.match(r'(lt|eq)\(', k) and re.search(r'\b%s\b' % arg, k)]
            return True if lim else 'links that point to each other are followed without end: the count is not bounded'
        if isd and isl and isd[0] == 0 and isl[0] == 0:
            return True if err or ret(p) == 'Result#0(ResolvedFileType#%d())' % RF else 'a link to a file is taken for %s' % ret(p)[:60]
        return None
    R.each(FS, 'links are watched, followed to the end and refused when they lead back', link, need=6, opaque=tuple(o for o in O if o != 'follow_and_watch_symlink'), labels=None)
    def start(p):
        rec = p.calls(FS)
        if not rec:
            return None
        a = [s(x) for x in rec[0][2]]
        return True if a[:3] == ['self', 'path', 'path'] else 'a link is followed with %s' % ', '.join(a[:3])
    R.each('follow_and_watch_symlink', 'the way of a link begins at the link', start, opaque=O)
    RL = 'read_link(path)'
    def target(d):
        if d(RL, 2):
            return lambda got: 'Result#1' in got[:9] or 'an error'
        t = RL + '@0.0'
        if d.b('is_absolute(%s)' % t):
            return RL
        if not d('parent(path)', 2):
            return lambda got: 'Result#1' in got[:9] or 'an error'
        return 'Result#0(join(parent(path)@1.0, %s))' % t
    R.spec('resolve_link', 'a relative link is relative to its own directory', lambda d: target(d) if d.p.calls('is_absolute') or d.p.fact('discr(%s)' % RL) == 1 else None, ret, need=3, opaque=())
    # --- events
    MD = 'metadata(path)'
    def needless(p):
        r, dropped = ret(p), None
        if r == '0':
            return True
        if p.fact('discr(current_entry)') != 1 or p.fact('discr(current_entry@1.0)') != DIR:
            return 'an event on something that is not known as a directory is dropped'
        m = [e for e in p.calls('metadata', 'symlink_metadata')]
        if not m or s(m[0][2][0]) not in ('path', 'path.0'):
            return 'an event on a directory is dropped without looking at it'
        if r != 'is_dir(%s@0.0)' % s(m[0][3]) and not (r == '1' and p.fact('is_dir(%s@0.0)' % s(m[0][3])) == 1):
            return 'an event on a directory is dropped though it might not be one any more (%s)' % r[:60]
        if not any(s(e[2][1]) in ('path', 'path.0') for e in p.calls('watch')):
            return 'a directory that is still there is not watched again'
        return True
    R.each('VfsHandler>::is_unnecessary_invalidation', 'an event is only dropped for a directory that still is one and is watched', needless, need=3, opaque=O, labels=['self', 'path', 'current_entry'])
    def watch(p):
        w = [e for e in p.calls('watch')]
        d = p.fact('discr(self.watcher)')
        if d == 0:
            return True
        if not w:
            return 'a path is not watched although there is a watcher'
        return True if s(w[0][2][1]) == 'path' and 'self.watcher' in s(w[0][2][0]) else 'another path is watched: %s' % s(w[0][2][1])[:60]
    R.each('LocalFS::watch', 'every path is watched when there is a watcher', watch, need=2, opaque=(), labels=['self', 'path'])
    def told(p):
        d = p.fact('discr(self.on_invalidated_in_memory_file)')
        c = [e for e in p.events if e[0] == 'call' and any(s(a) == 'path' or s(a) == '(path)' for a in e[2])]
        if d == 1:
            return True if c else 'an invalidated buffer is not announced'
        return True if d == 0 else None
    R.each('VfsHandler>::on_invalidated_in_memory_file', 'an invalidated buffer is announced when there is someone to tell', told, opaque=O, labels=['self', 'path'])
    R.done(9)
