"""Path-sensitive dataflow over MIR.

Enumerates the paths of a function (callees with a body inlined, iteration over an unknown collection
bounded, cleanup edges left out) over a domain of terms: arguments, fields, results of opaque calls,
constants, aggregates.  Branches on the same term are correlated.  The result is, per path, the ordered
events (calls, writes through pointers, lock operations, drops), the branch facts and the returned term.
No solver, no concrete inputs."""
import sys
sys.setrecursionlimit(20000)
UNIT = ('tup', ())
PANICS = ('core::panicking::', 'std::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
          'core::slice::index::slice_', 'core::str::slice_error_fail', 'alloc::raw_vec::handle_error', 'std::process::exit', 'std::process::abort')
OPTION, RESULT = 'core::option::Option', 'core::result::Result'

def T(op, *a):
    return ('T', op) + a
def I(n):
    return ('i', int(n))
NONE = ('adt', OPTION, 0, ())
def SOME(v):
    return ('adt', OPTION, 1, (v,))
def OK(v):
    return ('adt', RESULT, 0, (v,))
def ERR(v):
    return ('adt', RESULT, 1, (v,))

def norm(t):
    """a term without the distinction between an address and its initial contents"""
    if not isinstance(t, tuple):
        return t
    while len(t) == 3 and t[0] == 'T' and t[1] == 'val':
        t = t[2]
        if not isinstance(t, tuple):
            return t
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)

class Cut(Exception):
    pass

class S:
    __slots__ = ('mem', 'heap', 'facts', 'ev', 'occ', 'nxt')
    def __init__(self):
        self.mem, self.heap, self.facts, self.ev, self.occ, self.nxt = {}, {}, {}, None, {}, 0
    def copy(self):
        n = S.__new__(S)
        n.mem, n.heap, n.facts, n.ev, n.occ, n.nxt = dict(self.mem), dict(self.heap), dict(self.facts), self.ev, dict(self.occ), self.nxt
        return n
    def cell(self, v):
        i = self.nxt
        self.nxt += 1
        self.mem[i] = v
        return i
    def emit(self, *e):
        self.ev = (e, self.ev)
    def events(self):
        out, e = [], self.ev
        while e is not None:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out

# functions whose result only depends on their arguments (queries of the handler about paths, conversions)
PURE = {'separator', 'split_off_first_item', 'split_off_last_item', 'strip_separator_prefix', 'strip_separator_suffix', 'is_case_sensitive', 'normalize_path', 'normalize_rc_path', 'absolute_path',
        'relative_path', 'strip_path_prefix', 'strip_short_path_in_workspace', 'as_os_str', 'to_str', 'to_string_lossy', 'file_name', 'into_string', 'join', 'unchecked_abs_path', 'split_at', 'split_once', 'rsplit_once',
        'extension', 'file_stem', 'as_uri', 'path', 'kind', 'index'}

class Flow:
    def __init__(self, *crates, opaque=(), models=None, maxpaths=4000, unroll=3, items=2, maxsteps=600000, inline_depth=60, inline=None, havoc=True):
        import flowstd
        self.fns, self.adts, self.impl = {}, {}, {}
        for c in crates:
            for k, f in c.fns.items():
                if k not in self.fns or not self.fns[k]['local'] and f['local']:
                    self.fns[k] = f
            self.adts.update(c.adts)
        for k, f in self.fns.items():
            if f.get('itrait') and f.get('iself'):
                self.impl.setdefault((f['iself'].split('<')[0], f['name']), []).append(k)
        self.local = {k for k, f in self.fns.items() if f['local'] or k.startswith(('<utils', 'utils'))}
        self.opaque = set(opaque)
        self.models = models or {}
        self.std = flowstd.MODELS
        self.maxpaths, self.unroll, self.items, self.maxsteps, self.inline_depth = maxpaths, unroll, items, maxsteps, inline_depth
        self.inline = inline
        self.steps = 0
        self.cut = []           # what was not explored
        self.panics = []
        self.visited = set()
        self.stack = []
        self.cur = None
        self.nvar = {}
        self.havoc = havoc

    # ------------------------------------------------------------ locations: (root, proj); root ('C', cell) | ('H', address term)
    def read(self, st, loc):
        root, proj = loc
        v = st.mem.get(root[1], T('uninit')) if root[0] == 'C' else self.hread(st, root[1])
        for p in proj:
            v = self.field(st, v, p)
        return v
    def hread(self, st, a):
        v = st.heap.get(a)
        if v is not None:
            return v
        v = T('val', a)
        up = []
        for k, x in st.heap.items():
            if k[1] == 'fld' and k[2] == a:
                up.append((('f', k[4], k[3]), x))
        return ('rec', v, tuple(up)) if up else v
    def field(self, st, v, p):
        k = v[0]
        if p[0] == 'd':
            return T('as', v, p[1]) if k == 'T' else v
        if k == 'box':
            return v if p[0] == 'f' else self.field(st, st.mem[v[1]], p)
        if p[0] == 'f':
            if k == 'adt':
                return v[3][p[1]] if p[1] < len(v[3]) else T('bad')
            if k in ('tup', 'arr'):
                return v[1][p[1]] if p[1] < len(v[1]) else T('bad')
            if k == 'clo':
                return v[2][p[1]] if p[1] < len(v[2]) else T('bad')
            if k == 'rec':
                for q, x in v[2]:
                    if q[1] == p[1]:
                        return x
                return self.field(st, v[1], p)
            if k == 'T':
                n = p[2] if len(p) > 2 and p[2] is not None else p[1]
                if v[1] == 'val':
                    return T('val', T('fld', v[2], n, p[1]))
                return T('fld', v, n, p[1])
            if k == 'ref' or k == 'fn':
                return v
            return T('fld', v, p[1], p[1])
        if p[0] == 'i':
            if k in ('arr', 'tup') and p[1][0] == 'i' and p[1][1] < len(v[1]):
                return v[1][p[1][1]]
            return T('idx', v, p[1])
        if p[0] == 'ci':
            if k in ('arr', 'tup') and p[1] < len(v[1]):
                return v[1][-p[1] if p[2] else p[1]]
            return T('idx', v, (I(p[1]), p[2]))
        return T('sub', v, p)
    def setf(self, st, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        k = v[0]
        if p[0] == 'd':
            return self.setf(st, v, proj[1:], new)
        if p[0] == 'f' and k == 'adt' and p[1] < len(v[3]):
            f = list(v[3])
            f[p[1]] = self.setf(st, f[p[1]], proj[1:], new)
            return v[:3] + (tuple(f),)
        if p[0] == 'f' and k in ('tup', 'arr') and p[1] < len(v[1]):
            f = list(v[1])
            f[p[1]] = self.setf(st, f[p[1]], proj[1:], new)
            return (k, tuple(f))
        if p[0] == 'f' and k == 'clo' and p[1] < len(v[2]):
            f = list(v[2])
            f[p[1]] = self.setf(st, f[p[1]], proj[1:], new)
            return (k, v[1], tuple(f))
        if p[0] == 'f':
            n = self.setf(st, self.field(st, v, p), proj[1:], new)
            if k == 'rec':
                return ('rec', v[1], tuple(x for x in v[2] if x[0][1] != p[1]) + ((tuple(p), n),))
            return ('rec', v, ((tuple(p), n),))
        return T('upd', v, new)
    def write(self, st, loc, v, where=None, quiet=False):
        root, proj = loc
        if root[0] == 'C':
            st.mem[root[1]] = v if not proj else self.setf(st, st.mem.get(root[1], T('uninit')), proj, v)
            return
        a = root[1]
        if proj:
            cur = self.hread(st, a)
            st.heap[a] = self.setf(st, cur, proj, v)
            for p in proj:
                a = T('fld', a, p[2] if len(p) > 2 and p[2] is not None else p[1], p[1]) if p[0] == 'f' else T('as', a, p[1]) if p[0] == 'd' else T('idx', a, p[1:])
        else:
            st.heap[a] = v
            for k in [k for k in st.heap if k != a and k[1] == 'fld' and self.inside(k, a)]:
                del st.heap[k]
        if not quiet:
            st.emit('write', a, v, None, where, None)
    def inside(self, k, a):
        while isinstance(k, tuple) and len(k) > 2 and k[0] == 'T' and k[1] in ('fld', 'as'):
            k = k[2]
            if k == a:
                return True
        return False
    def derefloc(self, st, v):
        """location a pointer value points to"""
        k = v[0]
        if k == 'ref':
            return (v[1], v[2])
        if k == 'box':
            return (('C', v[1]), ())
        if k == 'T':
            return (('H', v), ())
        if k == 'rec':
            return self.derefloc(st, v[1])
        return (('C', st.cell(v)), ())
    def ref(self, loc):
        root, proj = loc
        if root[0] == 'H' and not proj and root[1][1] not in ('fld', 'as', 'in'):
            return root[1]
        return ('ref', root, proj)
    def place(self, st, env, pl):
        root, proj = ('C', env[pl[0]]), ()
        for p in pl[1]:
            if p == '*':
                root, proj = self.derefloc(st, self.read(st, (root, proj)))
            elif p[0] == 'i':
                proj += (('i', self.read(st, (('C', env[p[1]]), ()))),)
            elif p[0] in ('f', 'd'):
                v = self.read(st, (root, proj))
                if v[0] == 'box':
                    continue
                if root[0] == 'H' and not proj and root[1] not in st.heap:
                    root = ('H', T('fld', root[1], p[2] if len(p) > 2 and p[2] is not None else p[1], p[1]) if p[0] == 'f' else T('as', root[1], p[1]))
                elif p[0] == 'd':
                    proj += (('d', p[1]),)
                else:
                    proj += (tuple(p),)
            else:
                proj += (tuple(p),)
        return root, proj
    def load(self, st, env, pl):
        return self.read(st, self.place(st, env, pl))
    def deep(self, st, v):
        """the value behind references"""
        n = 0
        while v[0] in ('ref', 'box') and n < 20:
            v = self.read(st, self.derefloc(st, v))
            n += 1
        return v
    def resolve(self, st, v, d=0):
        """a value with every reference replaced by what it refers to (for events and results)"""
        if d > 10:
            return v
        k = v[0]
        if k in ('ref', 'box'):
            return self.resolve(st, self.read(st, self.derefloc(st, v)), d+1)
        if k == 'adt':
            f = tuple(self.resolve(st, x, d+1) for x in v[3])
            if f and all(x[0] == 'T' and x[1] == 'fld' and x[2] == f[0][2] and x[4] == i for i, x in enumerate(f)):
                a = self.adts.get(v[1])
                b = f[0][2]
                if a and len(a['v']) == 1 and b[0] == 'T' and not (b[1] == 'as'):
                    return b        # a field-by-field copy
                if b[0] == 'T' and b[1] == 'as' and b[3] == v[2]:
                    return b[2]
            return v[:3] + (f,)
        if k in ('tup', 'arr'):
            return (k, tuple(self.resolve(st, x, d+1) for x in v[1]))
        if k == 'clo':
            return (k, v[1], tuple(self.resolve(st, x, d+1) for x in v[2]))
        if k == 'seq':
            return (k, self.resolve(st, v[1], d+1) if v[1] else None, tuple(self.resolve(st, x, d+1) for x in v[2]))
        if k == 'rec':
            return (k, self.resolve(st, v[1], d+1), tuple((p, self.resolve(st, x, d+1)) for p, x in v[2]))
        if k == 'guard':
            return (k, v[1], norm(v[2])) + v[3:]
        if k == 'T':
            if v[1] not in ('val', 'fld', 'as') and v in st.heap:
                return self.resolve(st, st.heap[v], d+1)
            return norm(v)
        return v

    # ------------------------------------------------------------ values
    def const(self, k):
        if 'fn' in k:
            c = k['fn']
            return ('fn', c.get('key') or '', c.get('def') or '')
        if 'v' in k:
            return self.cval(k['v'], k)
        if 'static' in k:
            return T('static', str(k['static']))
        if k.get('cdef'):
            return T('const', k['cdef'])
        t = k.get('t')
        return T('konst', str(t) if not isinstance(t, int) else t)
    def cval(self, v, k=None):
        if v is None:
            return UNIT if k is None else T('zst')
        if isinstance(v, bool) or isinstance(v, int):
            return I(v)
        if isinstance(v, dict):
            if 'str' in v:
                return ('s', v['str'])
            if 'ref' in v:
                return self.cval(v['ref'])
            if 'adt' in v:
                return ('adt', v['adt'], v['var'], tuple(self.cval(x) for x in v['f']))
            if 'tup' in v:
                return ('tup', tuple(self.cval(x) for x in v['tup']))
            if 'arr' in v:
                return ('arr', tuple(self.cval(x) for x in v['arr']))
        return T('konst', repr(v)[:80])
    def operand(self, st, env, o):
        if o[0] == 'k':
            v = self.const(o[1])
            if v == T('zst'):
                t = self.cur['tys'][o[1]['t']] if isinstance(o[1].get('t'), int) else None
                s = (t or {}).get('s', '')
                return UNIT if s == '()' else T('zst', s)
            return v
        if o[0] in ('c', 'm'):
            return self.load(st, env, o[1])
        return T('rt')
    def discr(self, st, v):
        if v[0] == 'adt':
            a = self.adts.get(v[1])
            if a and v[2] < len(a['v']):
                d = a['v'][v[2]]['d']
                return I(d) if isinstance(d, int) else I(v[2])
            return I(v[2])
        if v[0] == 'rec':
            return self.discr(st, v[1])
        if v[0] in ('ref', 'box'):
            return self.discr(st, self.deep(st, v))
        return T('discr', norm(v))
    def binop(self, st, op, a, b):
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            r = {'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y,
                 'Add': lambda: x+y, 'Sub': lambda: x-y, 'Mul': lambda: x*y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y}.get(o)
            if r:
                v = I(r())
                return ('tup', (v, I(v[1] < 0))) if 'WithOverflow' in op else v
        a, b = norm(a), norm(b)
        if o in ('Eq', 'Ne'):
            v = self.eqterm(a, b)
            return v if o == 'Eq' else self.neg(v)
        if o == 'Lt':
            return T('lt', a, b)
        if o == 'Gt':
            return T('lt', b, a)
        if o == 'Ge':
            return self.neg(T('lt', a, b))
        if o == 'Le':
            return self.neg(T('lt', b, a))
        if o in ('BitAnd', 'BitOr', 'BitXor', 'Add', 'Mul') and repr(a) > repr(b):
            a, b = b, a
        v = T('bin', o, a, b)
        return ('tup', (v, I(0))) if 'WithOverflow' in op else v
    def eqterm(self, a, b):
        if a == b:
            return I(1)
        if a[0] in ('i', 's') and b[0] in ('i', 's'):
            return I(0)
        if a[0] in ('i', 's') or repr(a) > repr(b) and b[0] not in ('i', 's'):
            a, b = b, a
        return T('eq', a, b)
    def neg(self, v):
        if v[0] == 'i':
            return I(1 - v[1])
        if v[0] == 'T' and v[1] == 'not':
            return v[2]
        return T('not', v)
    def rvalue(self, st, env, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(st, env, rv[1])
        if k in ('ref', 'raw'):
            pl = rv[2] if k == 'ref' else rv[-1]
            if not isinstance(pl, list):
                return T('raw')
            return self.ref(self.place(st, env, pl))
        if k == 'cast':
            v = self.operand(st, env, rv[2])
            if rv[1] == 'IntToInt' and v[0] == 'T' and v[1] == 'bin' and isinstance(rv[3], int) and self.cur['tys'][rv[3]]['s'] in ('u8', 'u16', 'i8', 'i16'):
                return T('narrow', self.cur['tys'][rv[3]]['s'], v)     # a sum or difference that may not fit
            return v
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, env, rv[2]), self.operand(st, env, rv[3]))
        if k == 'un':
            v = self.operand(st, env, rv[2])
            if rv[1] in ('Not', 'not'):
                return self.neg(v) if v[0] == 'i' and v[1] in (0, 1) or v[0] == 'T' else T('un', 'Not', v)
            if v[0] == 'i' and rv[1] == 'Neg':
                return I(-v[1])
            if rv[1] == 'PtrMetadata':
                d = self.deep(st, v)
                return I(len(d[1])) if d[0] == 'arr' else T('len', norm(d))
            return T('un', rv[1], norm(v))
        if k == 'discr':
            d = self.discr(st, self.load(st, env, rv[1]))
            if d[0] == 'T' and len(rv) > 2 and isinstance(rv[2], int):
                a = self.adts.get(self.cur['tys'][rv[2]]['s'].split('<')[0])
                if a:
                    self.nvar[d] = frozenset(x['d'] if isinstance(x['d'], int) else i for i, x in enumerate(a['v']))
            return d
        if k == 'agg':
            kind = rv[1]
            ops = tuple(self.operand(st, env, o) for o in rv[-1])
            if kind == 'tup':
                return ('tup', ops)
            if kind == 'array':
                return ('arr', ops)
            if kind == 'adt':
                return ('adt', rv[2][0], rv[2][1], ops)
            if kind == 'closure':
                return ('clo', rv[2], ops)
            return ops[0] if kind == 'rawptr' and ops else T('agg', str(kind), *ops)
        if k == 'rep':
            return T('rep', self.operand(st, env, rv[1]))
        return T(k)

    # ------------------------------------------------------------ execution
    def run(self, key, args, st=None):
        """-> [(ret, st)] over all paths"""
        self.steps = 0
        self.cut, self.panics = [], []
        return self.call_body(key, args, st or S())
    def call_body(self, key, args, st):
        f = self.fns[key]
        self.visited.add(key)
        env = {i: st.cell(args[i-1] if 1 <= i <= len(args) and i <= f['argc'] else T('uninit')) for i in range(len(f['locals']))}
        self.stack.append(key)
        out = []
        work = [(0, st, {})]
        prev = self.cur
        try:
            while work:
                bb, st, vis = work.pop()
                self.steps += 1
                if self.steps > self.maxsteps or len(out) > self.maxpaths:
                    raise Cut('paths of ' + key)
                n = vis.get(bb, 0)
                if n > self.unroll:
                    self.cut.append((key, bb))
                    continue
                vis = dict(vis)
                vis[bb] = n + 1
                self.cur = f
                blk = f['blocks'][bb]
                for s in blk['s']:
                    if s[0] == '=':
                        self.write(st, self.place(st, env, s[1]), self.rvalue(st, env, s[2]), (key, s[3]))
                t = blk['t']
                kind = t[0]
                if kind == 'goto':
                    work.append((t[1], st, vis))
                elif kind == 'ret':
                    out.append((st.mem[env[0]], st))
                elif kind == 'switch':
                    for b, s2 in self.switch(f, st, env, t):
                        work.append((b, s2, vis))
                elif kind == 'drop':
                    v = self.read(st, self.place(st, env, t[1]))
                    self.dropv(st, v, self.tystr(f, t[4] if len(t) > 4 else None), key)
                    work.append((t[2], st, vis))
                elif kind == 'assert':
                    work.append((t[4], st, vis))
                elif kind == 'call':
                    callee, args_o, dest, target, line = t[1], t[2], t[3], t[4], t[6]
                    args2 = [self.operand(st, env, a) for a in args_o]
                    aty = [self.argty(f, a) for a in args_o]
                    dead = target is None or target < 0
                    for ret, s2 in self.call(f, callee, args2, st, line, aty, dead):
                        self.cur = f
                        if not dead:
                            self.write(s2, self.place(s2, env, dest), ret, (key, line))
                            work.append((target, s2, vis))
                elif kind not in ('unreach', 'resume', 'abort'):
                    self.cut.append((key, kind))
        finally:
            self.stack.pop()
            self.cur = prev
        return out
    def dropv(self, st, v, ty, key):
        st.emit('drop', ty, v, None, key, None)
        for g in sub(self.resolve(st, v), lambda x: x[0] == 'guard'):
            st.emit('release', g[1], g[2], g[4], key, None)
    def tystr(self, f, ty):
        return f['tys'][ty]['s'] if isinstance(ty, int) else str(ty)
    def argty(self, f, o):
        if o[0] in ('c', 'm') and not o[1][1]:
            return f['tys'][f['locals'][o[1][0]][0]]['s']
        if o[0] == 'k' and isinstance(o[1].get('t'), int):
            return f['tys'][o[1]['t']]['s']
        return ''
    def canon(self, v):
        """branch term -> (term, flipped, translate): eq(discr x, c) is a fact about discr x"""
        flip = False
        while v[0] == 'T' and v[1] == 'not':
            v, flip = v[2], not flip
        return v, flip
    def switch(self, f, st, env, t):
        v = self.operand(st, env, t[1])
        if v[0] in ('ref', 'box'):
            v = self.deep(st, v)
        if v[0] == 'i':
            for x, b in t[2]:
                if x == v[1]:
                    return [(b, st)]
            return [(t[3], st)]
        v, flip = self.canon(v)
        isbool = flip or self.tystr(f, t[5] if len(t) > 5 else None) == 'bool'
        if isbool:
            dst = {}
            for x, b in t[2]:
                dst[1-x if flip else x] = b
            for x in (0, 1):
                dst.setdefault(x, t[3])
            return [(dst[x], s) for x, s in self.fork(st, v) if f['blocks'][dst[x]]['t'][0] != 'unreach' or f['blocks'][dst[x]]['s']]
        v = norm(v)
        known = st.facts.get(v)
        ne = st.facts.get(('ne', v), frozenset())
        vals = [(x, b) for x, b in t[2]]
        other = t[3]
        if other is not None and f['blocks'][other]['t'][0] == 'unreach':
            other = None
        if known is not None:
            for x, b in vals:
                if x == known:
                    return [(b, st)]
            return [(other, st)] if other is not None else []
        out = []
        allv = self.nvar.get(v)
        for x, b in vals:
            if x in ne or f['blocks'][b]['t'][0] == 'unreach':
                continue
            s = st.copy()
            s.facts[v] = x
            out.append((b, s))
        if other is not None:
            ex = ne | {x for x, _ in vals}
            if allv is not None and not allv - ex:
                return out
            s = st.copy()
            if allv is not None and len(allv - ex) == 1:
                s.facts[v] = next(iter(allv - ex))
            else:
                s.facts[('ne', v)] = ex
            out.append((other, s))
        return out
    def fork(self, st, v):
        """the truth values a boolean term can have here -> [(0|1, st)]"""
        if v[0] == 'i':
            return [(v[1], st)]
        v, flip = self.canon(v)
        if flip:
            return [(1-x, s) for x, s in self.fork(st, v)]
        v = norm(v)
        if v[0] == 'T' and v[1] == 'eq' and v[3][0] == 'i' and v[2][0] == 'T' and v[2][1] == 'discr':
            d, c = v[2], v[3][1]
            if d in st.facts:
                return [(int(st.facts[d] == c), st)]
            ne = st.facts.get(('ne', d), frozenset())
            if c in ne:
                return [(0, st)]
            a, b = st.copy(), st.copy()
            a.facts[d] = c
            rest = (self.nvar.get(d) or frozenset()) - ne - {c}
            if d in self.nvar and not rest:
                return [(1, a)]
            if len(rest) == 1:
                b.facts[d] = next(iter(rest))
            else:
                b.facts[('ne', d)] = ne | {c}
            return [(1, a), (0, b)]
        if v in st.facts:
            return [(st.facts[v], st)]
        a, b = st.copy(), st.copy()
        a.facts[v], b.facts[v] = 1, 0
        return [(1, a), (0, b)]
    def variant(self, st, v, n):
        """[(variant index, st)] of an enum value with n variants (discriminants are the indices)"""
        v = self.deep(st, v)
        d = self.discr(st, v)
        if d[0] == 'i':
            return [(d[1], st)]
        if d in st.facts:
            return [(st.facts[d], st)]
        ne = st.facts.get(('ne', d), frozenset())
        left = [i for i in range(n) if i not in ne]
        out = []
        for i in left:
            s = st if len(left) == 1 else st.copy()
            s.facts[d] = i
            out.append((i, s))
        return out
    def payload(self, st, v, variant, i=0):
        v = self.deep(st, v)
        return self.field(st, self.field(st, v, ('d', variant)), ('f', i, None))

    # ------------------------------------------------------------ calls
    def opaque_call(self, name, args, st, line, aty, key=None, pure=False):
        vs = tuple(norm(self.resolve(st, a)) for a in args)
        n = 0
        if not pure and name.split('::')[-1] not in PURE:
            n = st.occ.get((name, vs), 0)
            st.occ[(name, vs)] = n + 1
        ret = T('call', name, vs, n)
        st.emit('call', name, vs, ret, self.stack[-1] if self.stack else '', line)
        for a, ty in zip(args, aty):
            if ty.startswith('&mut') and a[0] in ('ref', 'box', 'T'):
                loc = self.derefloc(st, a)
                old = self.read(st, loc)
                if old[0] in ('ref', 'box', 'clo') or not self.havoc and loc[0][0] == 'H':
                    continue
                self.write(st, loc, T('mut', name, norm(self.resolve(st, old)), vs[1:], n), quiet=True)
        return [(ret, st)]
    def call_value(self, fv, args, st, line):
        """call a closure / function value"""
        n = 0
        p = fv
        while p[0] in ('ref', 'box') and n < 10:
            v = self.read(st, self.derefloc(st, p))
            if v[0] == 'clo':
                return self.call_clo(v, p, args, st)
            p = v
            n += 1
        if p[0] == 'clo':
            return self.call_clo(p, None, args, st)
        if p[0] == 'fn':
            return self.call(None, {'key': p[1], 'def': p[2]}, list(args), st, line, [''] * len(args), False)
        return self.opaque_call('callback', [p] + list(args), st, line, [''] * (len(args)+1))
    def call_clo(self, c, ptr, args, st):
        f = self.fns.get(c[1])
        if f is None:
            return self.opaque_call('callback', [c] + list(args), st, 0, [''] * (len(args)+1))
        selfty = f['tys'][f['locals'][1][0]]['s'] if f['argc'] else ''
        if selfty.startswith('&'):
            c = ptr if ptr is not None else ('ref', ('C', st.cell(c)), ())
        return self.call_body(c2key(c, f), [c] + list(args), st)
    def call(self, f, callee, args, st, line, aty, diverges):
        if 'ptr' in callee:
            return self.opaque_call('fnptr', args, st, line, aty)
        d, key = callee.get('def') or '', callee.get('key') or ''
        name = d or key
        if name.startswith(PANICS) or key.startswith(PANICS):
            self.panics.append((list(self.stack), name, line, st))
            return []
        ctx = (f, callee, line, aty)
        for n in (key, d):
            m = self.models.get(n)
            if m:
                r = m(self, args, st, ctx)
                if r is not None:
                    return r
        if d == 'core::cmp::PartialOrd::le' and any('tracing' in x for x in aty):
            return [(I(0), st)]
        if 'tracing' in name.split('::')[0] or name.startswith('<tracing'):
            return [(T('trace'), st)]
        if key in self.opaque or d in self.opaque:
            return self.opaque_call(name, args, st, line, aty, key)
        if key not in self.local or d.startswith('core::ops::function::Fn'):
            m = self.std.get(d)
            if m:
                r = m(self, args, st, ctx)
                if r is not None:
                    return r
        if key in self.fns and self.allowed(key) and self.stack.count(key) < 2 and len(self.stack) < self.inline_depth:
            return self.call_body(key, args, st)
        if args and not key:    # trait method on a known type
            v = self.deep(st, args[0])
            if v[0] == 'adt':
                c = self.impl.get((v[1], d.split('::')[-1]))
                if c and len(c) == 1 and self.stack.count(c[0]) < 2 and self.allowed(c[0]):
                    return self.call_body(c[0], args, st)
        if diverges:
            self.panics.append((list(self.stack), name, line, st))
            return []
        return self.opaque_call(name or key, args, st, line, aty, key)
    def allowed(self, key):
        return self.inline is None or self.inline(key)

def c2key(c, f):
    return f['key']

# ------------------------------------------------------------ helpers for rules
def sub(t, pred):
    """all subterms satisfying pred"""
    out, st = [], [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and pred(x):
                out.append(x)
            st.extend(y for y in x if isinstance(y, tuple))
    return out
def has(t, s):
    return t == s or isinstance(t, tuple) and any(has(x, s) for x in t if isinstance(x, tuple))
def short(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 6:
        return '..'
    k = t[0]
    if k == 'T':
        if t[1] == 'arg':
            return str(t[2])
        if t[1] == 'val':
            return short(t[2], d)
        if t[1] == 'fld':
            return '%s.%s' % (short(t[2], d+1), t[3])
        if t[1] == 'as':
            return '%s@%s' % (short(t[2], d+1), t[3])
        if t[1] == 'call':
            return '%s(%s)%s' % (t[2].split('::')[-1], ', '.join(short(x, d+1) for x in t[3]), '' if not t[4] else "'" * t[4])
        return '%s(%s)' % (t[1], ', '.join(short(x, d+1) for x in t[2:]))
    if k == 'i':
        return str(t[1])
    if k == 's':
        return repr(t[1])
    if k == 'adt':
        return '%s#%s(%s)' % (t[1].split('::')[-1], t[2], ', '.join(short(x, d+1) for x in t[3]))
    if k in ('tup', 'arr'):
        return '(%s)' % ', '.join(short(x, d+1) for x in t[1])
    if k == 'seq':
        return '[%s%s]' % (short(t[1], d+1) + ' ++ ' if t[1] else '', ', '.join(short(x, d+1) for x in t[2]))
    if k == 'clo':
        return '|%s|' % '::'.join(t[1].split('::')[-2:])
    if k == 'guard':
        return 'guard(%s)' % short(t[2], d+1)
    return str(t)[:60]
