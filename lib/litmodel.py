"""Models for texts whose bytes are given one by one: ('arr', (byte, ...)), each byte a number or a term."""
import flowstd
from flow import T, I, norm, UNIT
NONE, SOME = flowstd.NONE, flowstd.SOME
def arr(F, st, v):
    v = F.deep(st, v)
    return v if v[0] == 'arr' else None
def bounds(F, st, r, n):
    """(from, to) of a range with known ends"""
    r = F.deep(st, r)
    if r[0] != 'adt':
        return None
    k = r[1].split('::')[-1]
    f = [norm(F.resolve(st, x)) for x in r[3]]
    if any(x[0] != 'i' for x in f[:2]):
        return None
    f = [x[1] for x in f]
    if k == 'Range':
        return f[0], f[1]
    if k == 'RangeFrom':
        return f[0], n
    if k == 'RangeTo':
        return 0, f[0]
    if k == 'RangeInclusive':
        return f[0], f[1] + 1
    if k == 'RangeToInclusive':
        return 0, f[0] + 1
    if k == 'RangeFull':
        return 0, n
    return None
def split(bs, i):
    """whether a text is cut in the middle of a character"""
    return 0 < i < len(bs) and bs[i][0] == 'i' and 0x80 <= bs[i][1] < 0xc0
def cut(F, st, args, ctx, what):
    F.panics.append((list(F.stack), what, ctx[2], st))
    return []
def index(F, args, st, ctx):
    a = arr(F, st, args[0])
    if a is None:
        return flowstd.index(F, args, st, ctx)
    b = bounds(F, st, args[1], len(a[1]))
    if b is None:
        return None
    if not 0 <= b[0] <= b[1] <= len(a[1]):
        return cut(F, st, args, ctx, 'slice outside of the text')
    if ctx[3] and 'str' in ctx[3][0] and 'u8' not in ctx[3][0] and (split(a[1], b[0]) or split(a[1], b[1])):
        return cut(F, st, args, ctx, 'slice in the middle of a character')
    return [(('arr', a[1][b[0]:b[1]]), st)]
def get(F, args, st, ctx):
    a = arr(F, st, args[0])
    if a is None:
        return None
    i = norm(F.resolve(st, args[1]))
    if i[0] == 'i':
        return [(SOME(a[1][i[1]]) if i[1] < len(a[1]) else NONE, st)]
    b = bounds(F, st, args[1], len(a[1]))
    if b is None:
        return None
    ok = 0 <= b[0] <= b[1] <= len(a[1]) and not ('str' in ctx[3][0] and 'u8' not in ctx[3][0] and (split(a[1], b[0]) or split(a[1], b[1])))
    return [(SOME(('arr', a[1][b[0]:b[1]])) if ok else NONE, st)]
def length(F, args, st, ctx):
    v = F.deep(st, args[0])
    if v[0] == 'it':
        n = left(F, st, v)
        return None if n is None else [(I(n), st)]
    if v[0] == 'arr':
        return [(I(len(v[1])), st)]
    m = F.std.get(ctx[1].get('def') or '')
    return m(F, args, st, ctx) if m else None
def left(F, st, it):
    """how many elements an iterator over a known text still has"""
    k = it[1]
    if k == 'list':
        return len(it[2]) - it[3]
    if k in ('enum', 'copied', 'rev'):
        return left(F, st, it[2])
    if k == 'peek':
        n = left(F, st, it[2])
        return None if n is None else n + (it[3] is not None and it[3][0] is not None)
    if k == 'ref':
        v = F.read(st, F.derefloc(st, it[2]))
        return left(F, st, v) if v[0] == 'it' else None
    return None
def eqbyte(F, st, b, k):
    if b[0] == 'i' and k[0] == 'i':
        return [(int(b[1] == k[1]), st)]
    return F.fork(st, T('eq', *sorted((b, k), key=lambda x: x[0] == 'i')))
def contains(F, args, st, ctx):
    a = arr(F, st, args[0])
    k = norm(F.resolve(st, args[1]))
    if a is None or k[0] not in ('i', 'T'):
        m = F.std.get(ctx[1].get('def') or '')
        return m(F, args, st, ctx) if m else None
    out, work = [], [st]
    for b in a[1]:
        nxt = []
        for s in work:
            for x, s2 in eqbyte(F, s, norm(b), k):
                if x:
                    out.append((I(1), s2))
                else:
                    nxt.append(s2)
        work = nxt
    return out + [(I(0), s) for s in work]
def chars(F, args, st, ctx):
    a = arr(F, st, args[0])
    if a is None:
        m = F.std.get(ctx[1].get('def') or '')
        return m(F, args, st, ctx) if m else None
    return [(('it', 'list', decode(a[1], 'char_indices' in ctx[1]['def']), 0), st)]
def decode(bs, at):
    """the characters of a text; bytes that are not given as numbers are ASCII"""
    out, i = [], 0
    while i < len(bs):
        b, n = bs[i], 1
        if b[0] == 'i' and b[1] >= 0xc0:
            n = 2 if b[1] < 0xe0 else 3 if b[1] < 0xf0 else 4
            try:
                b = I(ord(bytes(x[1] for x in bs[i:i+n]).decode()))
            except Exception:
                pass
        out.append(('tup', (I(i), b)) if at else b)
        i += n
    return tuple(out)
def len_utf8(F, args, st, ctx):
    c = norm(F.resolve(st, args[0]))
    return [(I(len(chr(c[1]).encode()) if c[0] == 'i' else 1), st)]
def str_new(F, args, st, ctx):
    return [(('seq', None, ()), st)]
def put(F, st, dst, items):
    loc = F.derefloc(st, dst)
    while F.read(st, loc)[0] in ('ref', 'box'):
        loc = F.derefloc(st, F.read(st, loc))
    old = F.read(st, loc)
    if old[0] == 'T':
        old = ('seq', old, ())
    if old[0] == 'arr':
        old = ('seq', None, (('text', old[1]),))
    F.write(st, loc, ('seq', old[1], old[2] + tuple(items)), quiet=True)
def push_str(F, args, st, ctx):
    a = F.deep(st, args[1])
    if a[0] == 's':
        put(F, st, args[0], [I(ord(c)) for c in a[1]])
        return [(UNIT, st)]
    if a[0] == 'seq' and a[1] is None:
        put(F, st, args[0], a[2])
        return [(UNIT, st)]
    put(F, st, args[0], [('text', a[1])] if a[0] == 'arr' else [('text?', norm(F.resolve(st, a)))])
    return [(UNIT, st)]
def push(F, args, st, ctx):
    put(F, st, args[0], [('char', norm(F.resolve(st, args[1])))])
    return [(UNIT, st)]
def extend(F, args, st, ctx):
    a = F.deep(st, args[1])
    if a[0] == 'arr':
        put(F, st, args[0], a[1])
    elif a[0] == 'seq' and a[1] is None:
        put(F, st, args[0], a[2])
    else:
        return None
    return [(UNIT, st)]
def same(F, args, st, ctx):
    return [(args[0], st)]
def clone(F, args, st, ctx):
    v = F.deep(st, args[0])
    if v[0] == 'it':
        return [(v, st)]
    m = F.std.get('core::clone::Clone::clone')
    return m(F, args, st, ctx) if m else None
def from_u32(F, args, st, ctx):
    n = norm(F.resolve(st, args[0]))
    out = []
    for x, s in F.fork(st, T('scalar', n)) if n[0] != 'i' else [(int(n[1] < 0x110000 and not 0xd800 <= n[1] < 0xe000), st)]:
        out.append((SOME(n) if x else NONE, s))
    return out
def to_digit(F, args, st, ctx):
    c, r = [norm(F.resolve(st, x)) for x in args]
    if r[0] != 'i':
        return None
    if c[0] == 'i':
        try:
            d = int(chr(c[1]), 36) if c[1] < 128 else 99
        except ValueError:
            d = 99
        return [(SOME(I(d)) if d < r[1] else NONE, st)]
    return [(SOME(T('digit', c)) if x else NONE, s) for x, s in F.fork(st, T('isdigit', c, r))]
def ascii_(lo_hi):
    def m(F, args, st, ctx):
        c = norm(F.resolve(st, args[0]))
        if c[0] == 'i':
            return [(I(int(any(a <= c[1] <= b for a, b in lo_hi))), st)]
        return [(I(int(x)), s) for x, s in F.fork(st, T('inrange', c, tuple(lo_hi)))]
    return m
def into_iter(F, args, st, ctx):
    v = F.deep(st, args[0])
    if v[0] == 'adt' and v[1].split('::')[-1] in ('Range', 'RangeInclusive'):
        b = bounds(F, st, v, 0)
        if b is not None and b[1] - b[0] < 100:
            return [(('it', 'list', tuple(I(i) for i in range(*b)), 0), st)]
    return flowstd.into_iter(F, args, st, ctx)
STD = {
    'core::iter::traits::collect::IntoIterator::into_iter': into_iter,
    'core::ops::index::Index::index': index, 'core::slice::<impl [T]>::get': get, 'core::str::<impl str>::get': get,
    'core::str::<impl str>::len': length, 'core::slice::<impl [T]>::len': length, 'core::iter::traits::exact_size::ExactSizeIterator::len': length,
    'core::slice::<impl [T]>::contains': contains, 'core::str::<impl str>::contains': contains,
    'core::str::<impl str>::chars': chars, 'core::str::<impl str>::char_indices': chars,
    'core::char::methods::<impl char>::len_utf8': len_utf8, 'core::char::methods::<impl char>::to_digit': to_digit, 'core::char::methods::<impl char>::from_u32': from_u32,
    'core::char::convert::from_u32': from_u32,
    'alloc::string::String::with_capacity': str_new, 'alloc::string::String::new': str_new,
    'alloc::string::String::push_str': push_str, 'alloc::string::String::push': push,
    'alloc::vec::Vec::<T, A>::extend_from_slice': extend,
    'core::clone::Clone::clone': clone,
    'core::num::<impl u8>::is_ascii_digit': ascii_([(48, 57)]), 'core::num::<impl u8>::is_ascii_hexdigit': ascii_([(48, 57), (65, 70), (97, 102)]),
    'core::char::methods::<impl char>::is_ascii_digit': ascii_([(48, 57)]), 'core::char::methods::<impl char>::is_ascii_hexdigit': ascii_([(48, 57), (65, 70), (97, 102)]),
}
