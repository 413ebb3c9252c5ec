"""Paths of the functions of crates/vfs, for the rules in rules/vfs_*.py."""
import re, facts, flow, flowstd
from flow import Flow, T, I, S, Cut, norm, sub, has, short, UNIT

FIELDS = {      # canonical field names by type, so that a renamed field is still found
    'vfs::vfs::Vfs': [('handler', 'Box<(dyn vfs::VfsHandler'), ('workspaces', 'workspaces::Workspaces'), ('files', 'InsertOnlyVec<'), ('in_memory_files', 'HashMap<vfs::vfs::PathWithScheme')],
    'vfs::vfs::FileState': [('path', 'PathWithScheme'), ('file_entry', 'Arc<vfs::tree::FileEntry>'), ('file', 'OnceLock<')],
    'vfs::tree::FileEntry': [('name', 'Arc<str>'), ('file_index', 'Mutex<'), ('invalidations', 'tree::Invalidations'), ('parent', 'tree::Parent')],
    'vfs::tree::AddedFile': [('invalidations', 'tree::Invalidations'), ('kind', 'AddedKind')],
    'vfs::tree::MissingEntry': [('name', 'Arc<str>'), ('invalidations', 'tree::Invalidations')],
    'vfs::tree::Directory': [('entries', 'OnceLock<'), ('parent', 'tree::Parent'), ('name', 'Arc<str>')],
    'vfs::vfs::PathWithScheme': [('path', 'NormalizedPath>'), ('scheme', 'Arc<alloc::boxed::Box<str>>')],
    'vfs::workspaces::Workspaces': [('items', 'ArcSwap'), ('items_write_lock', 'Mutex<()>')],
    'vfs::workspaces::Workspace': [('root_path', 'NormalizedPath>'), ('scheme', 'Arc<alloc::boxed::Box<str>>'), ('entries', 'tree::Entries'), ('kind', 'WorkspaceKind')],
}
LABELS = [('Option<vfs::tree::FileIndex>', 'origin'), ('vfs::tree::FileIndex', 'index'), ('vfs::tree::Invalidations', 'invs'), ('Arc<vfs::tree::FileEntry>', 'entry'),
          ('alloc::boxed::Box<str>', 'code'), ('vfs::vfs::PathWithScheme', 'path'), ('vfs::path::AbsPath', 'path'), ('vfs::vfs::VfsPanicRecovery', 'recovery'), ('bool', 'flag')]

class Path:
    def __init__(self, v, ret, st):
        self.v, self.F, self.st = v, v.F, st
        self.ret = v.F.resolve(st, ret)
        self.events = st.events()
        self.facts = {s(k): x for k, x in st.facts.items() if k[0] == 'T'}
        self._ne = {s(k[1]): x for k, x in st.facts.items() if k[0] == 'ne'}
    def calls(self, *names):
        return [e for e in self.events if e[0] == 'call' and e[1].split('::')[-1] in names]
    def pos(self, e):
        return self.events.index(e)
    def fact(self, x):
        return self.facts.get(x)
    def val(self, v):
        return s(self.F.resolve(self.st, v))
    def writes(self):
        return [(s(e[1]), self.val(e[2]), e) for e in self.events if e[0] == 'write']
    def discr(self, t):
        """known variant of a term / value, or None"""
        if t[0] == 'adt':
            return t[2]
        if t[0] == 'T':
            return self.st.facts.get(T('discr', norm(t)))
        return None
    def same_code(self, where=''):
        """the code of a loaded file is known to equal something"""
        def iscode(t):
            while t[0] == 'T' and t[1] in ('fld', 'val'):
                t = t[2]
            return t[0] == 'T' and t[1] == 'call' and t[2].split('::')[-1] == 'code' and where in s(t)
        return any(k[0] == 'T' and k[1] == 'eq' and x == 1 and (iscode(k[2]) or iscode(k[3])) for k, x in self.st.facts.items())
    def absurd(self):
        """the empty set of dependents is neither the marker nor does it have elements (its Default impl is checked by the rules)"""
        return any(x == 1 and re.match(r'more\(default\(', k) or x == 0 and re.match(r'discr\(default\(vfs::tree::InvalidationDetail<', k) for k, x in self.facts.items())
    def visited(self, coll):
        """(elements seen in a loop over coll, whether the loop ran to the end, whether it began)"""
        n = 0
        while self.facts.get('more(%s, %d)' % (coll, n)) == 1:
            n += 1
        over = self.facts.get('more(%s, %d)' % (coll, n)) == 0 or any(k[0] == 'bounded' and s(k[1]) == coll for k in self.st.facts if isinstance(k, tuple))
        return n, over, n > 0 or over
    def show(self):
        out = []
        for k, x in self.facts.items():
            out.append('%s=%s' % (k[-70:], x))
        return '; '.join(out)[:500]

REN = {}
def s(t):
    """the full spelling of a term"""
    if not isinstance(t, tuple):
        return str(t)
    if not t or isinstance(t[0], tuple):
        return '(%s)' % ', '.join(s(x) for x in t)
    k = t[0]
    if k == 'T':
        o = t[1]
        if o == 'arg':
            return str(t[2])
        if o == 'val':
            return s(t[2])
        if o == 'fld':
            return '%s.%s' % (s(t[2]), REN.get(t[3], t[3]) if t[3] not in ('', None) else t[4])
        if o == 'as':
            return '%s@%s' % (s(t[2]), t[3])
        if o == 'call':
            return '%s(%s)%s' % (t[2].split('::')[-1], ', '.join(s(x) for x in t[3]), '' if not t[4] else "'" * t[4])
        return '%s(%s)' % (o, ', '.join(s(x) for x in t[2:]))
    if k == 'i':
        return str(t[1])
    if k == 's':
        return repr(t[1])
    if k == 'adt':
        return '%s#%s(%s)' % (t[1].split('::')[-1], t[2], ', '.join(s(x) for x in t[3]))
    if k in ('tup', 'arr'):
        return '(%s)' % ', '.join(s(x) for x in t[1])
    if k == 'seq':
        return '[%s%s]' % (s(t[1]) + ' ++ ' if t[1] else '', ', '.join(s(x) for x in t[2]))
    if k == 'clo':
        return '|%s|' % '::'.join(t[1].split('::')[-2:])
    if k == 'guard':
        return 'guard(%s)' % s(t[2])
    return str(t)

def within(F, args, st, ctx):
    """DirectoryEntry::walk_entries: the callback sees some entry of the subtree"""
    e = norm(F.resolve(st, args[0]))
    if not (e[0] == 'T' and e[1] == 'within'):
        e = T('within', e)
    out = []
    for r, s2 in F.call_value(args[2], [e], st, ctx[2]):
        s2.emit('call', 'walked', (e, F.resolve(s2, r)), UNIT, F.stack[-1], ctx[2])
        out.append((UNIT, s2))
    return out
def within2(F, args, st, ctx):
    """walk_entries, where the callback sees two files with an index one after the other"""
    e = norm(F.resolve(st, args[0]))
    if e[0] == 'T' and e[1] == 'within':
        return within(F, args, st, ctx)
    work = [st]
    for w in (T('within', e), T('within', e, 1)):
        nxt = []
        for st in work:
            f = T('fld', T('as', w, 0), '0', 0)
            st.facts[T('discr', w)] = 0
            fl = [x[0] for x in F.c.adts['vfs::tree::FileEntry']['v'][0]['f']] if hasattr(F, 'c') and 'vfs::tree::FileEntry' in F.c.adts else ['name', 'file_index']
            i = next((i for i, x in enumerate(fl) if REN.get(x, x) == 'file_index'), 1)
            st.facts[T('discr', T('in', T('fld', f, fl[i], i)))] = 1
            for r, s2 in F.call_value(args[2], [w], st, ctx[2]):
                s2.emit('call', 'walked', (w, F.resolve(s2, r)), UNIT, F.stack[-1], ctx[2])
                nxt.append(s2)
        work = nxt
    return [(UNIT, x) for x in work]
def with_entries(F, args, st, ctx):
    return F.call_value(args[2], [T('entries', norm(F.resolve(st, args[0])))], st, ctx[2])

class V:
    OPAQUE = ('invalidate_files', 'invalidate_file_by_index', 'Workspaces::ensure_file', 'Workspaces::unload_file', 'Workspaces::delete_directory',
              'search_potential_parent_for_invalidation', 'absolute_path', 'GitignoreFile::new', 'is_unnecessary_invalidation')
    def __init__(self, crate='vfs'):
        self.c, self.u = facts.load(crate), facts.load('utils' if crate != 'utils' else 'licensing')
        self.crate = crate
        for adt, fl in FIELDS.items():
            a = self.c.adts.get(adt)
            if a and len(a['v']) == 1:
                for canon, ty in fl:
                    m = [f[0] for f in a['v'][0]['f'] if ty in f[1]]
                    if len(m) == 1 and m[0] != canon:
                        REN[m[0]] = canon
        self.analysed = set()
        self.cutpaths = 0
    def find(self, name):
        """key of the function Type::name or name"""
        for k, f in self.c.fns.items():
            if not f['local'] or '{closure' in k:
                continue
            d = strip(f['def'])
            if d == name or d.endswith('::' + name):
                return k
        return None
    def label(self, f):
        out, seen = [], {}
        for i in range(f['argc']):
            ty = f['tys'][f['locals'][i+1][0]]['s'].lstrip('&').replace('mut ', '').strip()
            nm = f['locals'][i+1][1]
            lab = 'self' if nm == 'self' else next((l for t, l in LABELS if ty.endswith(t)), None)
            if lab is None:
                lab = 'make' if (' FnOnce' in ty or 'Fn(' in ty) and ty.startswith('impl') else nm or 'a%d' % i
            seen[lab] = seen.get(lab, 0) + 1
            out.append(lab if seen[lab] == 1 else lab + str(seen[lab]))
        return out
    def paths(self, name, opaque=None, models=None, labels=None, args=None, then=None, drain=False, std=None, **kw):
        """[Path] of a function, or None when it is gone or cannot be enumerated"""
        k = self.find(name)
        if k is None:
            return None
        f = self.c.fns[k]
        op = self.OPAQUE if opaque is None else opaque
        opk = set()
        for x, g in self.c.fns.items():
            d = strip(g['def'])
            if '{closure' not in x and any(d == o or d.endswith('::' + o) for o in op):
                opk.add(x)
                opk.add(g['def'])
        kw.setdefault('havoc', False)
        self.F = F = Flow(self.c, self.u, opaque=opk, **kw)
        for m in F.std:
            if 'InsertOnly' in m and self.crate != 'utils':
                F.models[m] = F.std[m]
        F.models['core::ops::index::Index::index'] = F.models['core::ops::index::IndexMut::index_mut'] = F.std['core::ops::index::Index::index']
        for n, m in (models or {}).items():
            for x, g in self.c.fns.items():
                if '{closure' not in x and strip(g['def']).endswith('::' + n):
                    F.models[x] = F.models[g['def']] = m
        F.models.update(std or {})
        if args is None:
            args = [T('arg', l) for l in (labels or self.label(f))]
        try:
            r = F.run(k, args)
            if then:            # the returned closure is called
                F.stack.append(k)
                r = [y for a, b in r for y in F.call_value(a, [T('arg', x) for x in then], b, 0)]
                F.stack.pop()
            if drain:           # the returned iterator is run to its end: the elements are the result
                F.stack.append(k)
                work, r2 = [(a if a[0] == 'it' else flowstd.mkiter(F, b, a), b, ()) for a, b in r], []
                while work:
                    it, st, got = work.pop()
                    F.steps += 1
                    if F.steps > 20000:
                        raise Cut('drain')
                    for e, i2, s1 in flowstd.step(F, it, st, 0):
                        if e is None:
                            r2.append((('tup', tuple(F.resolve(s1, x) for x in got)), s1))
                        else:
                            work.append((i2, s1, got + (e,)))
                F.stack.pop()
                r = r2
        except Cut:
            self.cutpaths += 1
            return None
        self.analysed |= {x for x in F.visited}
        return [x for x in (Path(self, a, b) for a, b in r) if not x.absurd()]

def strip(d):
    """a path without generic arguments"""
    out, n = '', 0
    i = 0
    while i < len(d):
        ch = d[i]
        if ch == '<' and d[i-2:i] == '::':
            n += 1
            out = out[:-2]
        elif ch == '<' and n:
            n += 1
        elif ch == '>' and n and d[i-1] != '-':
            n -= 1
        elif not n:
            out += ch
        i += 1
    return out

WALK = {'DirectoryEntry::walk_entries': within, 'Parent::with_entries': with_entries}
WALK2 = {'DirectoryEntry::walk_entries': within2, 'Parent::with_entries': with_entries}

# functions of the crate that obligations refer to by name; when one is gone, the obligations that need it are undecided
OWN = {'strip_path_prefix', 'workspaces::strip_path_prefix', 'strip_short_path_in_workspace', 'ensure_dirs_and_file', 'maybe_add', 'Workspace::new', 'entries_with_workspaces', 'Entries::search_path',
       'Entries::unload_file', 'Entries::ensure_file', 'Entries::delete_directory', 'Directory::absolute_path', 'Parent::absolute_path', 'Parent::workspace', 'Parent::most_outer_dir', 'Parent::relative_path'}

class More(Exception):
    def __init__(self, options):
        self.options = options
class Ask:
    def __init__(self, p, script):
        self.p, self.script, self.i, self.log, self.memo = p, script, 0, [], {}
    def __call__(self, term, n):
        return self.pick('discr(%s)' % term, range(n))
    def b(self, term):
        return self.pick(term, (0, 1))
    def sym(self, f, a, b):
        """a symmetric test"""
        x, y = '%s(%s, %s)' % (f, a, b), '%s(%s, %s)' % (f, b, a)
        return self.pick(y if y in self.p.facts else x, (0, 1))
    def eq(self, a, b):
        return self.sym('eq', a, b)
    def more(self, coll, i):
        n, over, _ = self.p.visited(coll)
        return 1 if i < n else 0 if over else self.pick('more(%s, %d)' % (coll, i), (0, 1))
    def shorter(self, a, b):
        """a < b, where a tie may go either way"""
        if 'lt(%s, %s)' % (b, a) in self.p.facts:
            return 1 - self.p.facts['lt(%s, %s)' % (b, a)]
        return self.pick('lt(%s, %s)' % (a, b), (0, 1))
    def kind(self, m):
        """'dir', 'link' or 'file' (anything else), of metadata or a file type"""
        def known(f):
            for k in ('%s(%s)' % (f, m), '%s(file_type(%s))' % (f, m)):
                if k in self.p.facts:
                    return self.p.facts[k]
        if known('is_file') == 1:
            return 'file'
        d, l = known('is_dir'), known('is_symlink')
        if d == 1:
            return 'dir'
        if l == 1:
            return 'link'
        o = [x for x in (None if d == 0 else 'dir', None if l == 0 else 'link', 'file') if x]
        return o[0] if len(o) == 1 else self.pick('kind(%s)' % m, o)
    def pick(self, key, options):
        if key in self.memo:
            return self.memo[key]
        x = self.p.facts.get(key)
        if x is None:
            ne = self.p._ne.get(key, ())
            o = [y for y in options if y not in ne]
            if len(o) == 1:
                x = o[0]
            elif self.i < len(self.script):
                x = self.script[self.i]
                self.i += 1
                self.log.append((key, x))
            else:
                raise More(o)
        self.memo[key] = x
        return x

class Rules:
    """obligations over the paths of functions"""
    def __init__(self, rep, v=None):
        self.rep, self.v, self.cache, self.npaths = rep, v or V(), {}, 0
        self.decided = 0
    def paths(self, fn, **kw):
        k = (fn, repr(sorted((a, repr(b)) for a, b in kw.items())))
        if k not in self.cache:
            ps = self.v.paths(fn, **kw)
            self.cache[k] = ps
            if ps:
                self.npaths += len(ps)
        return self.cache[k]
    def each(self, fn, clause, pred, need=1, **kw):
        """pred(path) -> None: the clause says nothing about this path; True: holds; text: violated"""
        key = '%s: %s' % (fn, clause)
        gone = [o for o in kw.get('opaque') or () if o in OWN and self.v.find(o) is None]
        ps = self.paths(fn, **kw) if not gone else None
        if ps is None:
            self.rep.undecided(key)
            return
        n, bad = 0, None
        for p in ps:
            try:
                r = pred(p)
            except (TypeError, IndexError, KeyError, AttributeError):       # a value of a form the clause does not know
                self.odd = getattr(self, 'odd', 0) + 1
                continue
            if r is True:
                n += 1
            elif r:
                bad = (r, p)
                break
        if bad:
            f = self.v.c.fns[self.v.find(fn)]
            self.rep.bad(key, '%s:%s %s: %s -- broken on a path where %s: %s' % (f['file'].split('/repo/')[-1], f['line'], fn, clause, bad[1].show() or 'nothing is assumed', bad[0]))
        elif n < need:
            self.rep.undecided(key)
        else:
            self.rep.ok(key, '%d paths' % n)
            self.decided += 1
    def spec(self, fn, clause, want, seen, need=1, **kw):
        """want(d) -> the outcome the statement demands (None: it demands nothing), asking d(term, n) for the variant of a term and d.b(term) for
        a truth value; seen(path) -> the outcome on a path. Every demand that is consistent with what a path assumes has to be met by it."""
        def pred(p):
            out, script = None, [[]]
            while script:
                asked = script.pop()
                d = Ask(p, asked)
                try:
                    w = want(d)
                except More as m:
                    for x in m.options:
                        script.append(asked + [x])
                    continue
                if w is None:
                    continue
                got = seen(p)
                ok = w(got) if callable(w) else got == w
                if ok is not True:
                    return '%sexpected %s, found %s' % ('with %s, ' % ', '.join('%s=%s' % (a[-60:], x) for a, x in d.log) if d.log else '', ok if ok else '; '.join(map(str, w)) if isinstance(w, (tuple, list)) else w, ('; '.join(map(str, got)) if isinstance(got, (tuple, list)) else str(got))[:300])
                out = True
            return out
        self.each(fn, clause, pred, need, **kw)
    def done(self, floor, what='clauses decided'):
        self.rep.counts.update(paths=self.npaths, functions=len(self.v.analysed), clauses=self.decided)
        self.rep.floor('functions found', sum(1 for k in self.cache if self.cache[k] is not None), floor)
