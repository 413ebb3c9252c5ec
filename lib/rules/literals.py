"""C15: the value of a string or bytes literal is the one Python gives it."""
import ast, itertools, os, re, warnings
from multiprocessing import get_context
import litmodel
from flow import T, I, norm
from tok import lin
from vfsflow import V, Rules, s, strip

REPS = sorted(set([9, 10, 12, 13, 32, 34, 39, 92, 127] + [ord(c) for c in 'abcdefgnrstuvxyzABFGNTUXZ0123456789{}/:@`_']))
Q3 = "'''"
def spec():
    """shapes of literals: None is any byte"""
    A = None
    out = {'s': [], 'b': []}
    def t(*parts, kinds='sb', q=Q3, pre=('', 'b')):
        for kind, p in zip('sb', pre):
            if kind in kinds:
                x = []
                for y in (p, q) + parts + (q,):
                    x += [None] if y is None else [y] if isinstance(y, int) else list(y.encode())
                out[kind].append(tuple(x))
    bs = '\\'
    # prefixes and quotes
    for q in ("'", '"', "'''", '"""'):
        for p, k in (('', 's'), ('u', 's'), ('U', 's'), ('r', 's'), ('R', 's'), ('b', 'b'), ('B', 'b'), ('rb', 'b'), ('bR', 'b'), ('Rb', 'b'), ('BR', 'b')):
            for c in ((), (A,), ('x', bs, 'n', A)):
                t(*c, kinds=k, q=q, pre=(p, p))
        for n in (2, 3):
            t(*['ab', A, A][:n], q=q)
        for c in ((bs, A, 'z'), (bs, A, A, 'z'), (A, bs, A, 'z'), (A, A, 'z'), (A, 'xyz'), ('a', bs, A, bs, A), (bs, A, bs, A, 'z'), (bs, 13, 10, A, 'z'), ('"', A, 'z'), ("'", A, 'z'), ('""', A, 'z'), ("''", A, 'z')):
            if not isinstance(c[0], str) or c[0][0] != q:
                t(*c, q=q)
        for p, k in (('u', 's'), ('R', 's'), ('rb', 'b'), ('B', 'b')):
            t(bs, A, 'z', A, kinds=k, q=q, pre=(p, p))
    for p in ('r', 'R'):
        for c in (('a', A, A), (13, A, A), (bs, A), (bs, 13, A), (A, bs, A), ('é\r', A), ('é', A)):
            t(*c, pre=(p, p + 'b'), kinds='s' if 'é' in c[0:1] or 'é\r' in c[0:1] else 'sb')
    # escapes
    t(A, A); t('a', A, A, 'z'); t(bs, A); t('q', bs, A, 'q'); t(bs, A, A); t(bs, A, 'z', A); t(A, bs, A); t(bs, A, bs, A)
    t('qq', bs, A, 'qq', bs, 'n', 'qq'); t(bs, bs, A); t(bs, bs, bs, A); t('é', bs, A, 'é', kinds='s'); t('a', bs, 'é', A, kinds='s'); t('€', bs, '€', bs, A, kinds='s'); t('😀', A, bs, '😀', bs, 'n', kinds='s')
    t(13, A); t(A, 13, A); t('a', 13, A, 'b'); t('a', 13, 10, A); t(bs, 13, A); t(bs, 13, 10, A); t(bs, 10, A); t('a', bs, 13, A, 'b', 13, 10, 'c'); t(13, 13, A); t(13, bs, A); t('a', 10, 13, A); t('é', 13, A, 'é', kinds='s'); t(bs, 'n', 13, A)
    # numbers
    t(bs, 'x', A, A); t('q', bs, 'x', A, '7', 'q'); t('q', bs, 'xA', A, 'q'); t(bs, 'x41', A); t(bs, 'x'); t(bs, 'x', A); t(bs, 'x', A, 'é', kinds='s'); t(bs, 'xé', kinds='s'); t(bs, 'x', bs, A); t(bs, 'x4', bs, A); t(bs, 'x', bs, bs); t(bs, 'x4', bs, bs); t(bs, 'xe9', bs, 'x', A, A)
    t(bs, 'u', A, '020', A, kinds='s'); t(bs, 'u2', A, 'aC', A, kinds='s'); t(bs, 'u20', A, A, kinds='s'); t('q', bs, 'u00', A, A, 'q', kinds='s'); t(bs, 'u12é', kinds='s'); t(bs, 'u1é', A, kinds='s'); t(bs, 'u', bs, A, kinds='s'); t(bs, 'u20', bs, bs, kinds='s'); t(bs, 'u20a', kinds='s')
    t(bs, 'U000', A, 'F', A, '00', 'q', kinds='s'); t(bs, 'U0001f', A, '0', A, 'q', kinds='s'); t(bs, 'U', A, A, '01F600', kinds='s'); t(bs, 'U0010ffF', A, kinds='s'); t(bs, 'U00', A, '0ab', A, '1', kinds='s'); t(bs, 'U0001', 'é', kinds='s'); t(bs, 'U0001f60', bs, bs, kinds='s')
    t(bs, A, '12', 'z'); t(bs, '1', A, A); t(bs, '12', A, A); t(bs, A, '77', A); t(bs, '7', A); t(bs, '1', bs, A); t(bs, '01', bs, '7', A); t(bs, '400', A); t('q', bs, A, A, 'q'); t(bs, '0', 'é', kinds='s'); t(bs, '12', 'é', A, kinds='s'); t(bs, '377', bs, '3', A, 'q')
    return out

ONE = {q: re.compile(r"(?:[rR]?[bBuU]?|[bB][rR])%s(?:[^%s\\\r\n]|\\(?:\r\n|[\s\S]))*%s" % (q, q, q)) for q in '\'"'}
THREE = {q: re.compile(r"(?:[rR]?[bBuU]?|[bB][rR])%s(?:(?!%s)[^\\]|\\[\s\S])*%s" % (q*3, q*3, q*3)) for q in '\'"'}
def literal(code):
    """whether the text is one literal: (prefix, quote, content) or None"""
    m = re.match(r"([a-zA-Z]*)('''|\"\"\"|'|\")", code)
    if not m:
        return None
    p, q = m.groups()
    if len(q) == 3 and not THREE[q[0]].fullmatch(code):
        return None
    if len(q) == 1 and (not ONE[q].fullmatch(code) or code[len(p):] == q * 2 and False):
        return None
    if len(q) == 3 and len(code) < len(p) + 6:
        return None
    return p, q, code[len(p) + len(q):len(code) - len(q)]
def value(code):
    """what Python makes of a literal, as bytes; None: an error, or no text that could be stored"""
    p, q, inner = literal(code)
    if 'r' not in p.lower() and 'b' not in p.lower() and re.search(r'(?<!\\)(?:\\\\)*\\N', inner):
        return None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            x = ast.literal_eval(code)
        return x.encode() if isinstance(x, str) else x
    except (SyntaxError, ValueError, UnicodeError):
        return None

class Unknown(Exception):
    pass
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'usize': 64, 'char': 32}
def ev(t, a):
    """the value of a term for given bytes"""
    if isinstance(t, int):
        return t
    k = t[0]
    if k == 'i':
        return t[1]
    if k != 'T':
        raise Unknown(s(t)[:80])
    o = t[1]
    if o == 'arg':
        if t[2] in a:
            return a[t[2]]
        raise Unknown(t[2])
    if o in ('val',):
        return ev(t[2], a)
    if o == 'bin':
        x, y = ev(t[3], a), ev(t[4], a)
        f = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y, 'BitOr': lambda: x | y, 'BitAnd': lambda: x & y, 'BitXor': lambda: x ^ y,
             'Div': lambda: x // y, 'Rem': lambda: x % y}.get(t[2].replace('WithOverflow', '').replace('Unchecked', ''))
        if f is None:
            raise Unknown(t[2])
        return f()
    if o == 'eq':
        return int(ev(t[2], a) == ev(t[3], a))
    if o == 'lt':
        return int(ev(t[2], a) < ev(t[3], a))
    if o in ('not', 'neg'):
        return int(not ev(t[2], a))
    if o in ('narrow', 'cast'):
        w = WIDTH.get(t[2])
        if w is None:
            raise Unknown(str(t[2]))
        return ev(t[3], a) & (1 << w) - 1
    if o == 'digit':
        c = ev(t[2], a)
        return int(chr(c), 36)
    if o == 'isdigit':
        c = ev(t[2], a)
        try:
            return int(c < 128 and int(chr(c), 36) < ev(t[3], a))
        except ValueError:
            return 0
    if o == 'inrange':
        c = ev(t[2], a)
        return int(any(x <= c <= y for x, y in t[3]))
    if o == 'scalar':
        c = ev(t[2], a)
        return int(c < 0x110000 and not 0xd800 <= c < 0xe000)
    raise Unknown(s(t)[:80])
def names(t, out):
    if isinstance(t, tuple):
        if t[:2] == ('T', 'arg'):
            out.add(t[2])
        else:
            for x in t:
                names(x, out)
    return out
def conditions(st, free):
    """[(bytes it is about, test)] of a state"""
    out = []
    for k, x in st.facts.items():
        if k[0] == 'T':
            n = names(k, set())
            if n <= free:
                try:
                    if n or ev(k, {}) != x:
                        out.append((n, k, x))
                except Unknown:
                    pass
            elif n & free:
                raise Unknown(s(k)[:80])
        elif k[0] == 'ne':
            n = names(k[1], set())
            if n and n <= free:
                out.append((n, k, x))
            elif n & free:
                raise Unknown(s(k[1])[:80])
    return out
def holds(c, a):
    n, k, x = c
    return ev(k[1], a) not in x if k[0] == 'ne' else ev(k, a) == x
def fits(st, free):
    """the assignments of representative bytes a state is about"""
    cs = conditions(st, set(free))
    if any(not c[0] for c in cs):
        return
    sets = []
    for b in free:
        mine = [c for c in cs if c[0] == {b}]
        sets.append([r for r in REPS if all(holds(c, {b: r}) for c in mine)])
    rest = [c for c in cs if len(c[0]) > 1]
    for v in itertools.product(*sets):
        a = dict(zip(free, v))
        if all(holds(c, a) for c in rest):
            yield a
def text(F, st, v, a):
    """the bytes of a text that was built"""
    v = F.deep(st, v)
    def byte(x):
        y = ev(norm(F.resolve(st, x)), a)
        return bytes([y & 255])
    if v[0] == 'arr':
        return b''.join(byte(x) for x in v[1])
    if v[0] == 's':
        return v[1].encode()
    if v[0] == 'T':
        if v[1] == 'call' and v[2].endswith('::add') and len(v[3]) == 2:
            return text(F, st, v[3][0], a) + text(F, st, v[3][1], a)
        return bytes([]) if v[1] == 'default' else bad(v)
    if v[0] == 'seq' and v[1] is None:
        out = b''
        for x in v[2]:
            if x[0] == 'text':
                out += b''.join(byte(y) for y in x[1])
            elif x[0] == 'char':
                out += chr(ev(x[1], a)).encode(errors='surrogatepass')
            elif x[0] in ('i', 'T'):
                out += byte(x)
            else:
                bad(x)
        return out
    bad(v)
def bad(v):
    raise Unknown(s(v)[:80])

def _work(i):
    fn, clause, sh, judge = _work.todo[i]
    stats = _work.stats
    for k in stats:
        stats[k] = 0
    try:
        r = _work.one(fn, sh, judge)
    except (Unknown, TypeError, IndexError, KeyError, AttributeError) as e:
        if os.environ.get('VP_LIT'):
            print(fn, sh, repr(e))
        r = False
    return r, dict(stats), set(_work.v.analysed)

def run(rep):
    rep.rule('On every path through the functions that read literals, for shapes of literals of which some bytes are left open: the text or bytes, and the position, that the path builds are those Python (ast.literal_eval) gives the literal, for every choice of the open bytes among representatives that satisfies the conditions of the path. No choice that is a literal leads to a panic.')
    v = V('parsa_python_cst')
    shapes = spec()
    adt = next((a for k, a in v.c.adts.items() if k.endswith('strings::PythonString')), None)
    variants = [x['n'] for x in adt['v']] if adt else []
    stats = {'shapes': 0, 'paths': 0, 'literals': 0}
    def one(fn, shape, judge):
        """text: violated; None: holds; False: not decided"""
        free = ['B%d' % i for i, b in enumerate(shape) if b is None]
        arr = ('arr', tuple(T('arg', 'B%d' % i) if b is None else I(b) for i, b in enumerate(shape)))
        ps = v.paths(fn, opaque=(), models={'PyNode::as_code': lambda F, a, st, c: [(arr, st)], 'PyNode::length': lambda F, a, st, c: [(I(len(shape)), st)]}, std=litmodel.STD, items=40, unroll=40, maxpaths=20000)
        if ps is None or v.F.cut:
            return False
        stats['shapes'] += 1
        def code(a):
            return bytes(a['B%d' % i] if b is None else b for i, b in enumerate(shape)).decode()
        seen = 0
        for p in ps:
            stats['paths'] += 1
            for a in fits(p.st, free):
                c = code(a)
                l = literal(c)
                if l is None:
                    continue
                seen += 1
                x = judge(p, a, c, l)
                if x:
                    return '%r: %s' % (c, x)
        for stack, what, line, st in v.F.panics:
            try:
                for a in fits(st, free):
                    c = code(a)
                    if literal(c) is not None:
                        g = v.c.fns.get(stack[-1])
                        return '%r: a panic (%s) is reached in %s' % (c, what.split('::')[-1], strip(g['def']) if g else stack[-1])
            except Unknown:
                pass
        stats['literals'] += seen
        return None if seen else False
    todo = []
    def each(fn, clause, shapes, judge):
        if v.find(fn) is None:
            rep.undecided('%s: %s' % (fn, clause))
            return
        todo.extend((fn, clause, sh, judge) for sh in shapes)
    def work():
        _work.one, _work.todo, _work.stats, _work.v = one, todo, stats, v
        with get_context('fork').Pool(8) as p:
            res = p.map(_work, range(len(todo)), 4)
        broken = set()
        for (fn, clause, sh, judge), (r, st, an) in zip(todo, res):
            for k, x in st.items():
                stats[k] += x
            v.analysed |= an
            if (fn, clause) in broken:
                continue
            key = '%s: %s: %s' % (fn, clause, bytes(63 if b is None else b for b in sh).decode())
            if r:
                f = v.c.fns[v.find(fn)]
                rep.bad('%s: %s' % (fn, clause), '%s:%s %s: %s -- %s' % (f['file'].split('/repo/')[-1], f['line'], fn, clause, r))
                broken.add((fn, clause))
            elif r is None:
                rep.ok(key)
            else:
                rep.undecided(key)
    nt = next((a for k, a in v.c.adts.items() if k == 'parsa_python::NonterminalType'), None)
    FS = next((0x8000 + i for i, x in enumerate(nt['v']) if x['n'] == 'fstring'), None) if nt else None
    def isf(p, node):
        """whether the path takes a node for an f-string; text: for something else"""
        got = None
        for k, x in p.facts.items():
            m = re.fullmatch(r'eq\((.*)\.internal_node\.type_@0\.0, (\d+)\)', k)
            if m and m.group(1) == node:
                if int(m.group(2)) == FS:
                    return bool(x)
                got = 'another kind of node' if x else got or 'not another kind of node'
            elif k == 'discr(%s.internal_node.type_)' % node and x:
                return False
        return got
    def variant(p, nodes):
        """text: violated; True: an f-string; False: not one"""
        if p.ret[0] != 'adt' or p.ret[1].split('::')[-1] != 'PythonString':
            raise Unknown('result')
        fs = [isf(p, n) for n in nodes]
        r = variants[p.ret[2]] == 'FString'
        if r and all(x is not None for x in fs) and not any(x is True for x in fs):
            return 'a string that is no f-string has no value'
        if not r and any(x not in (None, False) for x in fs):
            return 'the value of an f-string is taken to be known'
        return r
    def string(p, a, c, l, node='literal'):
        r = variant(p, [node])
        if r:
            return None if r is True else r
        if p.ret[0] != 'adt' or len(p.ret[3]) != 2:
            raise Unknown('result')
        want = value(c)
        got = text(p.F, p.st, p.ret[3][1], a)
        at = lin(p.ret[3][0])
        off = len(l[0]) + len(l[1])
        if at.get(1, 0) != off or [x for k, x in at.items() if k != 1] != [1] or not any(str(k).endswith('start_index') for k in at):
            return 'the position is %s, not %d after the beginning of the literal' % (at, off)
        if want is not None and got != want:
            return 'the value is %r, in Python it is %r' % (got.decode(errors='replace'), want.decode())
        if variants[p.ret[2]] == 'Ref' and got != l[2].encode():
            return 'it refers to the text of the literal, but is %r' % got
    def joined():
        """several literals one after the other"""
        fn, clause = 'PythonString::new', 'the value of adjacent string literals'
        if v.find(fn) is None:
            rep.undecided('%s: %s' % (fn, clause))
            return
        for codes in (("'a?'", "'b'"), ("'a'", "'?b'"), ("'\\t?'", "r'\\?'"), ("'é'", "u'?'", '"\\n"'), ("'?'",), ("''", "'\\x41?'", "''", "'z'")):
            node = ['N%d' % i for i in range(len(codes))]
            free = ['B%d_%d' % (i, j) for i, x in enumerate(codes) for j, b in enumerate(x.encode()) if b == 63]
            arrs = [('arr', tuple(T('arg', 'B%d_%d' % (i, j)) if b == 63 else I(b) for j, b in enumerate(x.encode()))) for i, x in enumerate(codes)]
            def as_code(F, args, st, ctx):
                t = names(norm(F.resolve(st, args[0])), set())
                i = [n for n, x in enumerate(node) if x in t]
                return [(arrs[i[0]], st)] if len(i) == 1 else None
            key = '%s: %s: %s' % (fn, clause, ' '.join(codes))
            ps = v.paths(fn, opaque=(), models={'PyNode::as_code': as_code}, std=litmodel.STD, items=40, unroll=40, maxpaths=20000, args=[('it', 'list', tuple(T('arg', n) for n in node), 0)])
            if not ps or v.F.cut:
                rep.undecided(key)
                continue
            stats['shapes'] += 1
            try:
                for p in ps:
                    stats['paths'] += 1
                    r = variant(p, node)
                    for a in fits(p.st, free) if r is False else ():
                        cs = [bytes(a['B%d_%d' % (i, j)] if b == 63 else b for j, b in enumerate(x.encode())).decode() for i, x in enumerate(codes)]
                        if any(literal(c) is None or value(c) is None for c in cs):
                            continue
                        want, got = b''.join(map(value, cs)), text(p.F, p.st, p.ret[3][1], a)
                        at, l = lin(p.ret[3][0]), literal(cs[0])
                        stats['literals'] += 1
                        if got != want:
                            r = '%s: the value is %r, in Python it is %r' % (' '.join(cs), got.decode(errors='replace'), want.decode())
                            break
                        if at.get(1, 0) != len(l[0]) + len(l[1]) or [x for k, x in at.items() if k != 1] != [1] or not any(str(k).startswith('N0.') for k in at):
                            r = '%s: the position is %s' % (' '.join(cs), at)
                            break
                    if isinstance(r, str):
                        f = v.c.fns[v.find(fn)]
                        rep.bad('%s: %s' % (fn, clause), '%s:%s %s: %s -- %s' % (f['file'].split('/repo/')[-1], f['line'], fn, clause, r))
                        return
                rep.ok(key)
            except (Unknown, TypeError, IndexError, KeyError, AttributeError) as e:
                if os.environ.get('VP_LIT'):
                    print(key, repr(e))
                rep.undecided(key)
    def byts(p, a, c, l):
        if p.ret[0] != 'adt' or len(p.ret[3]) != 1:
            raise Unknown('result')
        want = value(c)
        got = text(p.F, p.st, p.ret[3][0], a)
        if want is not None and got != want:
            return 'the value is %r, in Python it is %r' % (got, want)
    def content(p, a, c, l):
        got = text(p.F, p.st, p.ret, a)
        if got != l[2].encode():
            return 'the text between the quotes is %r' % got.decode(errors='replace')
    def range_(p, a, c, l):
        r = p.F.deep(p.st, p.ret)
        if r[0] not in ('tup', 'arr') or len(r[1]) != 2:
            raise Unknown('result')
        got = tuple(ev(norm(p.F.resolve(p.st, x)), a) for x in r[1])
        off = len(l[0]) + len(l[1])
        if got != (off, len(c.encode()) - len(l[1])):
            return 'the text between the quotes is said to be at %d..%d' % got
    def short(kind):
        return [x for x in shapes[kind] if x.count(None) < 3 and len(x) < 12]
    each('PythonString::from_literal', 'the value of a string literal', shapes['s'], string)
    each('parse_python_bytes_literal', 'the value of a bytes literal', shapes['b'], byts)
    each('StringLiteral::content', 'the text between the quotes', short('s'), content)
    each('StringLiteral::content_start_and_end_in_literal', 'where the text between the quotes is', short('s'), range_)
    each('StringLiteral::as_python_string', 'the value of a string literal', short('s')[:40], lambda p, a, c, l: string(p, a, c, l, 'self.node'))
    joined()
    each('BytesLiteral::content_as_bytes', 'the value of a bytes literal', short('b')[:40], byts)
    work()
    rep.counts.update({'functions analysed': len(v.analysed), 'shapes of literals': stats['shapes'], 'paths': stats['paths'], 'literals judged': stats['literals']})
