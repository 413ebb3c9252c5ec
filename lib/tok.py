"""The tokenizer of crates/parsa_python: the texts its regular expressions are made of, and sets of texts as automata."""
import rx
from flow import T, I, norm
from vfsflow import V, s, strip

class Unknown(Exception):
    pass

def nexts(v):
    """key of <PythonTokenizer as Iterator>::next"""
    for f in v.c.list:
        if f['local'] and f['name'] == 'next' and (f.get('itrait') or '').endswith('Iterator') and 'Tokenizer' in (f.get('iself') or ''):
            return strip(f['def'])
    return None

class Texts:
    """evaluates a term to the text it denotes, statics included"""
    def __init__(self, v):
        self.v, self.memo = v, {}
    def static(self, t):
        """the initial value of a lazy static, as a term"""
        init = next((x for x in t[1:] if isinstance(x, tuple) and x and x[0] == 'fn'), None)
        if init is None:
            raise Unknown(s(t)[:80])
        if init[1] not in self.memo:
            ps = self.v.paths(strip(self.v.c.fns[init[1]]['def']), opaque=()) if init[1] in self.v.c.fns else None
            if not ps or len(ps) != 1:
                raise Unknown(init[1])
            self.memo[init[1]] = ps[0].ret
        return self.memo[init[1]]
    def args(self, t):
        """(name, arguments) of a term of a call"""
        if t[0] == 'T' and t[1] == 'call':
            return t[2].split('::')[-1], list(t[3]) if len(t) > 3 and isinstance(t[3], tuple) and (not t[3] or isinstance(t[3][0], tuple)) else list(t[3:])
        if t[0] == 'T':
            return t[1], list(t[2:])
        return None, []
    def text(self, t):
        if t[0] == 's':
            return t[1]
        if t[0] == 'i':
            return chr(t[1])
        if t[0] == 'seq' and not t[1]:
            return ''.join(self.text(x) for x in t[2])
        n, a = self.args(t)
        if n in ('val', 'in', 'fld', 'as', 'deref', 'as_str', 'to_owned', 'to_string', 'into', 'from', 'clone', 'borrow', 'as_ref', 'unwrap'):
            return self.text(a[0])
        if n == 'get':
            return self.text(self.static(('T',) + tuple(a)))
        if n == 'add':
            return self.text(a[0]) + self.text(a[1])
        if n == 'join':
            return self.text(a[1]).join(self.text(x) for x in self.items(a[0]))
        if n == 'concat':
            return ''.join(self.text(x) for x in self.items(a[0]))
        if n == 'format':
            m, b = self.args(a[0])
            return self.fmt([x[1] for x in self.items(b[0])], [self.args(x)[1][0] for x in self.items(b[1])])
        raise Unknown(s(t)[:80])
    def items(self, t):
        if t[0] in ('arr', 'tup'):
            return list(t[1])
        if t[0] == 'seq' and not t[1]:
            return list(t[2])
        raise Unknown(s(t)[:80])
    def fmt(self, tpl, args):
        out, i, k = '', 0, 0
        while i < len(tpl):
            b = tpl[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out += bytes(tpl[i:i+b]).decode()
                i += b
            elif b == 192:
                out += self.text(args[k])
                k += 1
            elif b == 200:
                out += self.text(args[tpl[i] + 256 * tpl[i+1]])
                i += 2
            else:
                raise Unknown('format')
        return out
    def pattern(self, t):
        """the pattern of a term that is a lazy static regex"""
        n, a = self.args(t)
        if n in ('val', 'deref', 'in'):
            return self.pattern(a[0])
        if n != 'get':
            raise Unknown(s(t)[:80])
        r = self.static(('T',) + tuple(a))
        while True:
            m, b = self.args(r)
            if m == 'new':
                return self.text(b[0])
            if m in ('fld', 'as', 'val', 'unwrap', 'expect'):
                r = b[0]
                continue
            raise Unknown(s(r)[:80])

# ---------------------------------------------------------------- sets of texts as automata: (initial state, step(state, char), accepting(state))
class Lang:
    def __init__(self, pattern, longest=True):
        self.ast = rx.parse(pattern)
        self.longest = longest
    def points(self):
        return rx.classes(self.ast)
    def start(self, reps):
        self.sr = rx.Search(self.ast, reps, self.longest)
        return self.sr.init()
    def step(self, q, c):
        return self.sr.step(q, c)
    def acc(self, q):
        return self.sr.accepts(q)
    def dead(self, q):
        return not q
class Len:
    """a comparison of the length in bytes"""
    def __init__(self, f, top):
        self.f, self.top = f, top
    def points(self):
        return [0, 0x80, 0x800, 0x10000]
    def start(self, reps):
        return 0
    def step(self, q, c):
        return min(self.top + 5, q + (1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4))
    def acc(self, q):
        return self.f(q)
class Kmp:
    """contains / starts with / ends with / equals a literal"""
    def __init__(self, kind, lit):
        self.kind, self.lit = kind, [ord(c) for c in lit]
    def points(self):
        return [0] + [x for c in self.lit for x in (c, c + 1)]
    def start(self, reps):
        return (0, 1 if self.kind == 'contains' and not self.lit else 0, ())
    def step(self, q, c):
        n, hit, tail = q
        tail = (tail + (c if c in self.lit else -1,))[-len(self.lit):] if self.lit else ()
        n = min(n + 1, len(self.lit) + 1)
        if self.kind == 'starts_with':
            if n <= len(self.lit):
                return (n, 0, tail)
            return (n, 0, q[2] if q[0] >= len(self.lit) else tail)
        return (n, hit or int(list(tail) == self.lit), tail)
    def acc(self, q):
        n, hit, tail = q
        if self.kind == 'contains':
            return bool(hit)
        if self.kind == 'eq':
            return n == len(self.lit) and list(tail) == self.lit
        return list(tail) == self.lit

def witness(conds, limit=60000):
    """a shortest text t with (t in L) == truth for all (L, truth), or None"""
    pts = {0}
    for l, _ in conds:
        pts |= set(l.points())
    reps = sorted(p for p in pts if p <= rx.MAXC and not 0xD800 <= p < 0xE000)
    st = tuple(l.start(reps) for l, _ in conds)
    seen, todo = {st: None}, [st]
    for q in todo:
        if all(l.acc(x) == bool(t) for (l, t), x in zip(conds, q)):
            out = []
            while seen[q]:
                q, c = seen[q]
                out.append(c)
            return ''.join(map(chr, reversed(out)))
        for c in reps:
            n = tuple(l.step(x, c) for (l, _), x in zip(conds, q))
            if n in seen or any(t and hasattr(l, 'dead') and l.dead(x) for (l, t), x in zip(conds, n)):
                continue
            seen[n] = (q, c)
            todo.append(n)
            if len(todo) > limit:
                raise Unknown('too many states')
    return None

def skip_model(fields):
    """skip_whitespace: moves the position to some later one and tells the indentation"""
    def m(F, args, st, ctx):
        a = norm(F.resolve(st, args[0]))
        i = fields.index('index')
        F.write(st, (('H', T('fld', a, 'index', i)), ()), T('start'), quiet=True)
        st.emit('call', 'skip_whitespace', (a,), T('indentation'), F.stack[-1], ctx[2])
        return [(T('indentation'), st)]
    return m
def rest_model(F, args, st, ctx):
    return [(T('rest', norm(F.resolve(st, args[0])), norm(F.resolve(st, args[1]))), st)]

OPAQUE = ('PythonTokenizer::handle_fstring_stack', 'PythonTokenizer::find_name_length', 'PythonTokenizer::dedent_if_necessary', 'PythonTokenizer::encountered_break_token')
def setting(v):
    """(name of next, keywords for its paths) or None when the tokenizer is not of the known form"""
    n = nexts(v)
    a = v.c.adts.get('parsa_python::tokenizer::PythonTokenizer')
    if n is None or a is None:
        return None
    fl = [f[0] for f in a['v'][0]['f']]
    if 'index' not in fl or v.find('PythonTokenizer::skip_whitespace') is None:
        return None
    return n, dict(opaque=OPAQUE + (n,), models={'PythonTokenizer::skip_whitespace': skip_model(fl), 'tokenizer::code_from_start': rest_model})
def kinds(v):
    a = v.c.adts.get('parsa_python::tokenizer::TerminalType')
    return [x['n'] for x in a['v']] if a else []
def rest(x):
    """spellings of the remaining text"""
    return x.replace('index(self.code, RangeFrom#0(start()))', 'rest(self.code, start())').replace('start()', 'start')
def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)

def lin(t):
    """a sum as {spelled atom: coefficient}; the constant under 1"""
    out = {}
    def go(t, k):
        if t[0] == 'i':
            out[1] = out.get(1, 0) + k * t[1]
        elif t[0] == 'T' and t[1] == 'bin' and t[2] in ('Add', 'Sub'):
            go(t[3], k)
            go(t[4], k if t[2] == 'Add' else -k)
        elif t[0] == 'T' and t[1] in ('cast', 'val') and len(t) > 2 and isinstance(t[2], tuple):
            go(t[2], k)
        elif t[0] == 'T' and t[1] == 'call' and t[2].split('::')[-1] in ('saturating_add', 'wrapping_add', 'checked_add'):
            go(t[3][0], k)
            go(t[3][1], k)
        else:
            a = spell(s(t))
            out[a] = out.get(a, 0) + k
    go(t, 1)
    return {a: c for a, c in out.items() if c}
def spell(x):
    import re
    x = re.sub(r"rev\(\('it', 'enum', \('it', 'src', \('T', 'fld', \('T', 'arg', 'self'\), 'f_string_stack', \d+\), 0, ''\), 0\)\)", 'INNER', x)
    x = re.sub(r"rev\(self\.f_string_stack\)", 'INNER1', x)
    return rest(x).replace('idx(self.f_string_stack, (1, True))', 'TOP').replace('last(self.f_string_stack)@1.0', 'TOP').replace('last_mut(self.f_string_stack)@1.0', 'TOP')
def add(a, b):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + c
    return {k: c for k, c in r.items() if c}
