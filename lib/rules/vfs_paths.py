"""C07: a path is resolved in the innermost workspace that contains it, one component at a time."""
import re
from vfsflow import V, Rules, s, T, norm, sub, strip
from rules.vfs_dep import variant

def sp(x):
    return 'split_off_first_item(vfs, %s)' % x

def run(rep):
    rep.rule('Every path of the functions that resolve, place, unload and attribute paths yields what the statement demands for everything that the path assumes: '
             'the components are compared pairwise, the workspace with the shortest rest is taken, each step looks up exactly one component.')
    v = V()
    R = Rules(rep, v)
    E = 'vfs::tree::DirectoryEntry'
    FILE, DIR, MISS, GIT = (variant(v, E, n, i) for i, n in enumerate(('File', 'Directory', 'MissingEntry', 'Gitignore')))
    ODIR, OFILE = variant(v, 'vfs::tree::DirOrFile', 'Dir', 0), variant(v, 'vfs::tree::DirOrFile', 'File', 1)
    ENT, NEST = variant(v, 'vfs::tree::DirEntries', 'Entries', 0), variant(v, 'vfs::tree::DirEntries', 'NestedWorkspace', 1)
    PD, PW = variant(v, 'vfs::tree::Parent', 'Directory', 0), variant(v, 'vfs::tree::Parent', 'Workspace', 1)
    FALLBACK = variant(v, 'vfs::workspaces::WorkspaceKind', 'Fallback', 1)
    NONE = 'Option#0()'
    def ret(p):
        return s(p.ret)
    def effects(*names):
        return lambda p: tuple('%s(%s)' % (e[1].split('::')[-1], ', '.join(s(a) for a in e[2])) for e in p.calls(*names))
    # --- is a path within a root?
    def contains(d):
        P, Q = 'path', 'root.0'
        exact = d.b('flag')
        for i in range(6):
            a, b = sp(P) + '.0', sp(Q) + '.0'
            if not (d.eq(a, b) if exact else d.sym('eq_ignore_ascii_case', a, b)):
                return NONE
            if not d(sp(P) + '.1', 2):
                return NONE
            if not d(sp(Q) + '.1', 2):
                return sp(P) + '.1'
            P, Q = sp(P) + '.1@1.0', sp(Q) + '.1@1.0'
        return None
    R.spec('workspaces::strip_path_prefix', 'the components of the root are compared one by one with those of the path, and the rest of the path is handed back', contains, ret, need=9, labels=['vfs', 'flag', 'path', 'root'], opaque=())
    def scheme(d):
        if not d.eq('path.scheme', 'self.scheme'):
            return NONE
        return 'strip_path_prefix(vfs, flag, path.path.0.0, self.root_path.0)'
    R.spec('Workspace::strip_path_prefix', 'only a path of the same scheme is within a workspace', scheme, ret, need=2, opaque=('workspaces::strip_path_prefix',))
    ITEMS = 'in(self.items).0'
    def el(i):
        return 'elem(%s, %d)' % (ITEMS, i)
    def innermost(d):
        best = None
        for i in range(3):
            if not d.more(ITEMS, i):
                break
            x = 'strip_path_prefix(%s, vfs, flag, path)' % el(i)
            if d(x, 2) and (best is None or d.shorter('len(%s@1.0)' % x, 'len(%s@1.0)' % best[1])):
                best = (el(i), x)
        return 'Option#1((%s, %s@1.0))' % best if best else NONE
    R.spec('Workspaces::strip_short_path_in_workspace', 'of the workspaces that contain a path, the one with the shortest rest is taken', innermost, ret, need=6, opaque=('strip_path_prefix',))
    # --- lookups
    N, REST = sp('path') + '.0', sp('path') + '.1'
    M = 'mapget(in(self.0), %s)' % N
    def look(d):
        if not d(M, 2):
            return NONE
        if d(REST, 2):
            if d(M + '@1.0', 4) != DIR:
                return NONE
            return 'search_path(entries_with_workspaces(vfs, workspaces, %s@1.0@%d.0), vfs, workspaces, %s@1.0)' % (M, DIR, REST)
        k = d(M + '@1.0', 4)
        if k == FILE:
            return 'Option#1(DirOrFile#%d(%s@1.0@%d.0))' % (OFILE, M, FILE)
        if k == DIR:
            return 'Option#1(DirOrFile#%d(%s@1.0@%d.0))' % (ODIR, M, DIR)
        return NONE
    R.spec('Entries::search_path', 'a lookup takes one component per directory', look, ret, need=6, opaque=('Entries::search_path', 'entries_with_workspaces'))
    def unload(d):
        if not d(M, 2):
            return ()
        if not d(REST, 2):
            return ('map remove(in(self.0), %s)' % N,) if d(M + '@1.0', 4) == FILE else ()
        if d(M + '@1.0', 4) != DIR:
            return ()
        X = 'in(%s@1.0@%d.0.entries)' % (M, DIR)
        if not d(X, 2) or d(X + '@1.0', 2) == NEST:
            return ()
        return ('unload_file(%s@1.0@%d.0, vfs, %s@1.0)' % (X, ENT, REST),)
    R.spec('Entries::unload_file', 'exactly the entry of the file is removed', unload, effects('map remove', 'unload_file', 'map insert'), need=6, opaque=('Entries::unload_file',))
    def delete(d):
        """(succeeds?, effects)"""
        if not d(M, 2):
            return (1, ())
        if d(M + '@1.0', 4) != DIR:
            return (1, ())
        if not d(REST, 2):
            return (0, ('map remove(in(self.0), %s)' % N,))
        X = 'in(%s@1.0@%d.0.entries)' % (M, DIR)
        if not d(X, 2) or d(X + '@1.0', 2) == NEST:
            return lambda got: got[1] == () or 'nothing to be removed'
        return (None, ('delete_directory(%s@1.0@%d.0, vfs, %s@1.0)' % (X, ENT, REST),))
    def deleted(p):
        return (p.ret[2] if p.ret[0] == 'adt' else None, effects('map remove', 'delete_directory', 'map insert')(p))
    R.spec('Entries::delete_directory', 'exactly the named directory is removed', delete, deleted, need=6, opaque=('Entries::delete_directory',))
    def read(d):
        X = 'in(dir.entries)'
        if not d(X, 2):
            return 'read_and_watch_dir(vfs, in(workspaces.items).0, absolute_path(dir, vfs).path.0.0, Parent#%d(Weak#0(dir)))' % PD
        return X + '@1.0@%d.0' % ENT if d(X + '@1.0', 2) == ENT else 'strong(%s@1.0@%d.0).entries' % (X, NEST)
    R.spec('Directory::entries_with_workspaces', 'the entries of a directory are those of its own path, or those of the nested workspace', read, ret, need=3, opaque=('Directory::absolute_path', 'read_and_watch_dir'))
    def kept(d):
        X = 'in(dir.entries)'
        if d(X, 2):
            return ()
        return ('in(dir.entries) := Option#1(DirEntries#%d(read_and_watch_dir(vfs, in(workspaces.items).0, absolute_path(dir, vfs).path.0.0, Parent#%d(Weak#0(dir)))))' % (ENT, PD),)
    R.spec('Directory::entries_with_workspaces', 'a directory is read once', kept, lambda p: tuple('%s := %s' % (a, x) for a, x, e in p.writes()), need=3, opaque=('Directory::absolute_path', 'read_and_watch_dir'))
    # --- whole paths
    SS = 'strip_short_path_in_workspace(self, vfs, flag, path)'
    def fall(d):
        for i in range(3):
            if not d.more(ITEMS, i):
                return NONE
            if d(el(i) + '.kind', 5) == FALLBACK:
                G = 'mapget(in(%s.entries.0), path.path.0.0)' % el(i)
                if d(G, 2):
                    return 'Option#1(DirOrFile#%d(%s@1.0@%d.0))' % (OFILE, G, FILE)
        return None
    def resolve(d):
        if d(SS, 2):
            X = 'search_path(%s@1.0.0.entries, vfs, self, %s@1.0.1)' % (SS, SS)
            if d(X, 2):
                return X
        return fall(d)
    R.spec('Workspaces::search_path', 'a path is looked up in the innermost workspace, else among the files outside of all', resolve, ret, need=10, opaque=('Entries::search_path', 'strip_short_path_in_workspace'))
    def place(d):
        if d(SS, 2):
            return 'ensure_dirs_and_file(Parent#%d(Weak#0(%s@1.0.0)), %s@1.0.0.entries, vfs, self, %s@1.0.1, code)' % (PW, SS, SS, SS)
        for i in range(3):
            if not d.more(ITEMS, i):
                return None
            if d(el(i) + '.kind', 5) == FALLBACK:
                return 'ensure_file(%s.entries, vfs, Parent#%d(Weak#0(%s)), path.path.0.0, code)' % (el(i), PW, el(i))
        return None
    R.spec('Workspaces::ensure_file', 'a buffer is placed in the innermost workspace, else among the files outside of all', place, ret, need=3, opaque=('ensure_dirs_and_file', 'strip_short_path_in_workspace', 'Entries::ensure_file'))
    def unall(d):
        out = []
        for i in range(3):
            if not d.more(ITEMS, i):
                return tuple(out)
            x = 'strip_path_prefix(%s, vfs, flag, path)' % el(i)
            if d(x, 2):
                out.append('unload_file(%s.entries, vfs, %s@1.0)' % (el(i), x))
        return None
    R.spec('Workspaces::unload_file', 'every workspace that contains the path unloads it', unall, effects('unload_file'), need=6, opaque=('strip_path_prefix', 'Entries::unload_file'))
    def delws(d):
        if d(SS, 2):
            return ('delete_directory(%s@1.0.0.entries, vfs, %s@1.0.1)' % (SS, SS),)
        return ()
    R.spec('Workspaces::delete_directory', 'a directory is deleted in the innermost workspace', delws, effects('delete_directory', 'map remove'), need=2, opaque=('strip_short_path_in_workspace', 'Entries::delete_directory'))
    # --- the parent for an event
    def attribute(d):
        for i in range(3):
            if not d.more(ITEMS, i):
                return NONE
            W = el(i)
            if not d.eq(W + '.scheme.0', "'file'"):
                continue
            x = 'strip_path_prefix(vfs, flag, path.0, %s.root_path.0)' % W
            if not d(x, 2):
                continue
            cur, ents, rest, gone = None, W + '.entries', x + '@1.0', False
            for j in range(5):
                n, r = sp(rest) + '.0', sp(rest) + '.1'
                if not d(r, 2):
                    par = 'Parent#%d(Weak#0(%s))' % ((PW, W) if cur is None else (PD, cur))
                    return 'Option#1((%s, %s, %s))' % (W, par, n)
                if cur is not None:
                    X = 'in(%s.entries)' % cur
                    if not d(X, 2):
                        gone = True
                        break
                    ents = X + '@1.0@%d.0' % ENT if d(X + '@1.0', 2) == ENT else 'strong(%s@1.0@%d.0).entries' % (X, NEST)
                m = 'mapget(in(%s.0), %s)' % (ents, n)
                if not d(m, 2) or d(m + '@1.0', 4) != DIR:
                    gone = True
                    break
                cur, rest = m + '@1.0@%d.0' % DIR, r + '@1.0'
            if not gone:
                return None
        return None
    R.spec('Workspaces::search_potential_parent_for_invalidation', 'an event is attributed to the directory that holds the last component', attribute, ret, need=50, opaque=('workspaces::strip_path_prefix',))
    # --- placing
    EM = 'mapget(in(entries.0), %s)' % N
    def step(p):
        """one step of placing a file: the last component is a file of these entries; any other is a directory of that name, found or made"""
        d1 = p.fact('discr(%s)' % REST)
        if d1 is None:
            return 'the file is placed without asking whether there is another component' if p.calls('ensure_dirs_and_file', 'ensure_file', 'map insert') else None
        ens, rec, ins = p.calls('ensure_file'), p.calls('ensure_dirs_and_file'), p.calls('map insert')
        if d1 == 0:
            w = 'entries, vfs, parent, %s, code' % N
            if [', '.join(s(a) for a in e[2]) for e in ens] != [w] or rec or ins:
                return 'the last component is not made a file of the given entries under its own name'
            return True
        if ens or len(rec) != 1:
            return 'a component that is not the last is not followed'
        a = [s(x) for x in rec[0][2]]
        if p.fact('discr(%s)' % EM) == 1 and p.fact('discr(%s@1.0)' % EM) == DIR:
            dr = '%s@1.0@%d.0' % (EM, DIR)
            ok = a[0] == 'Parent#%d(Weak#0(%s))' % (PD, dr) and a[1] == 'entries_with_workspaces(vfs, workspaces, %s)' % dr and not ins
            if not ok:
                return 'an existing directory is not the one that is followed'
        else:
            m = re.match(r'Parent#%d\(Weak#0\((Directory#0\(.*\))\)\)$' % PD, a[0])
            if not m:
                return 'the file is not placed in a new directory'
            dr = m.group(1)
            t = rec[0][2][0][3][0][3][0]        # the Directory value
            fl = [f[0] for f in v.c.adts['vfs::tree::Directory']['v'][0]['f']]
            from vfsflow import REN
            vals = {REN.get(n, n): s(x) for n, x in zip(fl, t[3])}
            if vals.get('name') != N or vals.get('parent') != 'parent':
                return 'the new directory does not get the name of the component and the given parent'
            if a[1] != 'entries_with_workspaces(vfs, workspaces, %s)' % dr:
                return 'the file is not placed among the entries of the new directory'
            put = [e for e in ins if s(e[2][1]) == N and s(e[2][2]) == 'DirectoryEntry#%d(%s)' % (DIR, dr) and 'in(entries.0)' in s(e[2][0])]
            if len(put) != 1 or len(ins) != 1:
                return 'the new directory is not entered under its name'
        return True if a[2:] == ['vfs', 'workspaces', REST + '@1.0', 'code'] else 'the rest of the path or the text is not passed on: %s' % ', '.join(a[2:])[:200]
    R.each('ensure_dirs_and_file', 'placing a file takes one component per directory', step, need=4, opaque=('ensure_dirs_and_file', 'entries_with_workspaces', 'Entries::ensure_file'))
    # --- the way back
    def up(kind):
        def f(p):
            r, c = p.ret, p.calls('join')
            if r[0] != 'adt' or len(r[3]) != 2:
                return 'the path is not made of the parent path and the name'
            par = 'absolute_path(self.parent, vfs)'
            x = 'join(vfs, %s.path.0, self.name)' % par
            a, b = s(r[3][0]), s(r[3][1])
            return True if a == x and b == par + '.scheme' else 'the path is %s with scheme %s' % (a[:200], b[:80])
        return f
    for kind in ('FileEntry', 'Directory'):
        R.each('%s::absolute_path' % kind, 'an absolute path is that of the parent joined with the name', up(kind), opaque=('Parent::absolute_path', 'join'))
    def parpath(d):
        if d('self', 2) == PD:
            return ('absolute_path(strong(self@%d.0), vfs)' % PD,) * 2
        w = 'strong(self@%d.0)' % PW
        return (w + '.root_path', w + '.scheme')
    def parts(p):
        t = p.ret
        if t[0] == 'adt':
            return (s(t[3][0]), s(t[3][1]))
        x = s(t)
        return (x, x) if x.startswith('absolute_path(') else (x + '.root_path', x + '.scheme')
    R.spec('Parent::absolute_path', 'the path of a workspace is its root', parpath, parts, need=2, opaque=('Directory::absolute_path',))
    def ws(d):
        return 'workspace(strong(self@%d.0).parent)' % PD if d('self', 2) == PD else 'strong(self@%d.0)' % PW
    R.spec('Parent::workspace', 'the workspace is that of the outermost parent', ws, ret, need=2, opaque=('Parent::workspace',))
    def outer(d):
        if d('self', 2) == PW:
            return NONE
        D = 'strong(self@%d.0)' % PD
        x = 'most_outer_dir(%s.parent)' % D
        return x if d(x, 2) else 'Option#1(%s)' % D
    R.spec('Parent::most_outer_dir', 'the outermost directory is the one below the workspace', outer, ret, need=2, opaque=('Parent::most_outer_dir',))
    # --- the set of workspaces
    def add(d):
        for i in range(3):
            if not d.more('items', i):
                return 'Option#1(new(vfs, items, scheme, root, kind))'
            if d.eq('root', 'elem(items, %d).root_path' % i):
                return NONE
        return None
    R.spec('WorkspacesBuilder::maybe_add', 'a root is only added once', add, ret, need=4, opaque=('Workspace::new',), labels=['items', 'vfs', 'scheme', 'root', 'kind'])
    MA = 'maybe_add(in(self.items).0, vfs, scheme, root, kind)'
    def push(d):
        return (1, ('arc_swap store(self.items, [in(self.items).0 ++ %s@1.0])' % MA,)) if d(MA, 2) else (0, ())
    R.spec('Workspaces::push_without_full_access', 'a new workspace is added behind all present ones', push, lambda p: (p.ret[1], effects('arc_swap store')(p)), need=2, opaque=('maybe_add',), labels=['self', 'vfs', 'scheme', 'root', 'kind'])
    def nest(p):
        """a workspace whose root is a directory of an earlier one is linked there"""
        bad, n = None, 0
        sets = p.calls('set')
        OK = []
        k, ne = p.fact('discr(kind)'), p._ne.get('discr(kind)', ())
        if k == FALLBACK:
            return True if not p.calls('read_and_watch_dir') and not sets else 'a workspace for files outside of all is read from disk'
        L = 'split_off_last_item(vfs, root_path.0.0)'
        for i in range(2):
            if p.fact('more(workspaces, %d)' % i) != 1:
                break
            r = 'elem(workspaces, %d)' % i
            q = [x for x in ('eq(%s.0@1.0, %s.root_path.0.0)' % (L, r), 'eq(%s.root_path.0.0, %s.0@1.0)' % (r, L)) if x in p.facts]
            if p.fact('discr(%s.0)' % L) == 0:
                continue
            if not q:
                return 'an earlier workspace is not asked whether it is the parent of the new root'
            if p.facts[q[0]] != 1:
                continue
            m = 'mapget(in(%s.entries.0), %s.1)' % (r, L)
            if p.fact('discr(%s)' % m) == 1 and p.fact('discr(%s@1.0)' % m) == DIR:
                OK.append('%s@1.0@%d.0.entries' % (m, DIR))
        got = [s(e[2][0]) for e in sets]
        if got != OK:
            return 'the directories linked to the nested workspace are %s instead of %s' % (got, OK)
        if any('DirEntries#%d(Weak#0(' % NEST not in s(e[2][1])[:40] for e in sets):
            return 'the directory is not linked to the new workspace'
        rd = p.calls('read_and_watch_dir')
        if len(rd) != 1 or s(rd[0][2][1]) != 'workspaces' or s(rd[0][2][2]) != 'root_path.0.0' or not s(rd[0][2][3]).startswith('Parent#%d(Weak#0(Workspace#' % PW):
            return 'the entries of the workspace are not those of its root'
        return True
    R.each('Workspace::new', 'a workspace has the entries of its root and is linked into the workspace around it', nest, need=6, opaque=('read_and_watch_dir',), labels=['vfs', 'workspaces', 'scheme', 'root_path', 'kind'])
    # --- components
    def first(d):
        F = 'find(path, separator(self))'
        if not d(F, 2):
            return '(path, Option#0())'
        return '(index(path, RangeTo#0(%s@1.0)), Option#1(index(path, RangeFrom#0(bin(Add, %s@1.0, 1)))))' % (F, F)
    def last(d):
        F = 'rfind(path, separator(self))'
        if not d(F, 2):
            return '(Option#0(), path)'
        return '(Option#1(index(path, RangeTo#0(%s@1.0))), index(path, RangeFrom#0(bin(Add, %s@1.0, 1))))' % (F, F)
    def uses(name, want):
        """only for code that is written with this std function"""
        return lambda d: want(d) if d.p.calls(name) else None
    def either(name, want, once):
        def f(d):
            if d.p.calls(once):
                F = '%s(path, separator(self))' % once
                if name == 'find':
                    return '(%s@1.0.0, Option#1(%s@1.0.1))' % (F, F) if d(F, 2) else '(path, Option#0())'
                return '(Option#1(%s@1.0.0), %s@1.0.1)' % (F, F) if d(F, 2) else '(Option#0(), path)'
            return want(d) if d.p.calls('find', 'rfind') else None
        return f
    def slices(p):
        """the result, with ways to write slices made alike"""
        r = ret(p)
        x = r'r?find\(path, separator\(self\)\)@1\.0'
        r = re.sub(r'split_at\(path, (%s)\)\.0' % x, r'index(path, RangeTo#0(\1))', r)
        r = re.sub(r'split_at\(path, (%s)\)\.1' % x, r'index(path, RangeFrom#0(\1))', r)
        r = re.sub(r'index\(index\(path, RangeFrom#0\((%s)\)\), RangeFrom#0\(1\)\)' % x, r'index(path, RangeFrom#0(bin(Add, \1, 1)))', r)
        r = re.sub(r'bin\(Add, 1, (%s)\)' % x, r'bin(Add, \1, 1)', r)
        return r
    R.spec('VfsHandler::split_off_first_item', 'the first component ends at the first separator', either('find', first, 'split_once'), slices, need=2)
    R.spec('VfsHandler::split_off_last_item', 'the last component begins after the last separator', either('rfind', last, 'rsplit_once'), slices, need=2)
    def joined(p):
        j = [e for e in p.calls('join')]
        return True if len(j) == 1 and s(j[0][2][0]) == 'path.0' and s(j[0][2][1]) == 'name' and 'join(path.0, name)' in ret(p) else 'the name is not joined to the path: %s' % ret(p)[:200]
    R.each('VfsHandler::join', 'a name is appended to the path', lambda p: joined(p) if p.calls('join') else None, labels=['self', 'path', 'name'])
    def absolute(d):
        return 'unchecked_abs_path(self, path)' if d.b('is_absolute(path)') else 'join(self, dir, path)'
    R.spec('VfsHandler::absolute_path', 'a relative path is relative to the current directory', uses('is_absolute', absolute), ret, need=2, opaque=('VfsHandler::join', 'unchecked_abs_path'), labels=['self', 'dir', 'path'])
    def unchecked(d):
        F = 'strip_separator_suffix(self, path)'
        return F + '@1.0' if d(F, 2) else 'path'
    R.spec('VfsHandler::unchecked_abs_path', 'a trailing separator is dropped', unchecked, ret, need=2)
    R.spec('VfsHandler::strip_separator_suffix', 'the separator is stripped from the end', uses('strip_suffix', lambda d: 'strip_suffix(path, separator(self))'), ret)
    R.spec('VfsHandler::strip_separator_prefix', 'the separator is stripped from the start', uses('strip_prefix', lambda d: 'strip_prefix(path, separator(self))'), ret)
    def rcnorm(d):
        F = 'normalize_path(self, path)'
        return F + '@1.0' if d(F, 2) else 'path'
    R.spec('VfsHandler::normalize_rc_path', 'the normalized path is that of the path', rcnorm, ret, need=2, opaque=('normalize_path',))
    C = 'components(path.0)'
    def ops(d):
        out = []
        for i in range(3):
            if not d.more(C, i):
                return tuple(out)
            k = d('elem(%s, %d)' % (C, i), 5)
            if k == 3:
                out.append('pop')
            elif k != 2:
                out.append('push as_os_str(elem(%s, %d))' % (C, i))
        return None
    def done(p):
        return tuple('pop' if e[1].endswith('::pop') else 'push ' + s(e[2][1]) for e in p.calls('push', 'pop'))
    R.spec('normalized_path::normalize', 'normalizing drops `.` and lets `..` take back one component', uses('components', ops), done, need=8)
    def same(p):
        """None is only said of a path that is its own normal form"""
        if not p.calls('components'):
            return None
        q = [(k, x) for k, x in p.facts.items() if k.startswith('eq(') and 'path.0' in k and 'to_str(' in k]
        if ret(p) == NONE:
            return True if any(x == 1 for k, x in q) else 'a path is handed back as normalized without being equal to its normal form'
        if p.ret[0] == 'adt' or ret(p).startswith('to_str('):
            return True if 'to_str(' in ret(p) else 'the result is not the normal form'
        return None
    R.each('normalized_path::normalize', 'only a path in normal form is kept', same, need=8)
    def rel(d):
        X = 'relative_path(self.parent, vfs)'
        if d.b('is_empty(%s)' % X):
            return 'self.name'
        return 'add(mut(alloc::string::String::push, %s, (separator(vfs)), 0), self.name)' % X
    for kind in ('FileEntry', 'Directory'):
        R.spec('%s::relative_path' % kind, 'a relative path is that of the parent followed by the name', lambda d: rel(d) if d.p.calls('is_empty') and d.p.calls('separator') or 'is_empty(relative_path(self.parent, vfs))' in d.p.facts else None, ret, need=2, opaque=('Parent::relative_path',))
    R.each('AbsPath::contains_sub_file', 'a directory contains what begins with its components', lambda p: None if not p.calls('starts_with') else True if ret(p) == 'starts_with(path.0, self.0)' else 'the test is %s' % ret(p)[:100], labels=['self', 'path'])
    def folder(d):
        for i in range(3):
            if not d.more('self.items', i):
                return '0'
            if d.b('starts_with(path.0.0, elem(self.items, %d).root_path)' % i):
                return '1'
        return None
    R.spec('WorkspacesBuilder::path_is_contained_in_type_checking_folder', 'a path is in a workspace when it begins with the components of its root', uses('starts_with', folder), ret, need=2)
    R.done(24)
