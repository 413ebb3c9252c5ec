"""Models of the standard library (and of a few foreign crates) for flow.py: each returns [(result, state)]."""
from flow import T, I, NONE, SOME, OK, ERR, UNIT, norm, OPTION
MODELS = {}
def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco

IT = 'core::iter::traits::iterator::Iterator::'
DI = 'core::iter::traits::double_ended::DoubleEndedIterator::'
HM = 'std::collections::hash::map::HashMap::<K, V, S, A>::'
HS = 'std::collections::hash::set::HashSet::<T, S, A>::'
VEC = 'alloc::vec::Vec::<T, A>::'

# ------------------------------------------------------------ pointers
@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::convert::AsMut::as_mut',
       'alloc::string::String::as_str', VEC + 'as_slice', VEC + 'as_mut_slice', 'core::pin::Pin::<Ptr>::as_ref', 'core::pin::Pin::<Ptr>::get_ref', 'core::pin::Pin::<Ptr>::as_mut',
       "core::pin::Pin::<&'a T>::get_ref", 'core::pin::Pin::<Ptr>::get_unchecked_mut', 'core::pin::Pin::<&\'a mut T>::get_mut', 'core::pin::Pin::<&\'a mut T>::get_unchecked_mut',
       'alloc::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::path::PathBuf::as_path', 'std::path::Path::as_os_str', 'std::path::Path::new')
def deref(F, args, st, ctx):
    a = args[0]
    if a[0] in ('ref', 'box', 'T'):
        if a[0] == 'T':
            loc = (('H', a), ())
            if a not in st.heap:
                return [(a, st)]
        else:
            loc = F.derefloc(st, a)
        v = F.read(st, loc)
        if v[0] == 'guard':
            return [(v[3], st)]
        if v[0] in ('box', 'ref', 's'):
            return [(v if v[0] != 'box' else ('ref', ('C', v[1]), ()), st)]
        if v[0] == 'T' and a[0] == 'ref':
            return [(v, st)]
    return [(a, st)]

@model('core::clone::Clone::clone', 'core::convert::Into::into', 'core::convert::From::from', 'alloc::borrow::ToOwned::to_owned', 'alloc::string::ToString::to_string',
       "alloc::borrow::Cow::<'_, B>::into_owned", 'core::str::<impl str>::to_owned', 'alloc::slice::<impl [T]>::to_vec', 'std::path::Path::to_path_buf')
def copyv(F, args, st, ctx):
    v = args[0]
    if ctx[1].get('def') == 'core::clone::Clone::clone':
        loc = F.derefloc(st, v)
        x = F.read(st, loc)
        if x[0] in ('ref', 'box'):
            return [(x, st)]
        c = F.impl.get((x[1], 'clone')) if x[0] == 'adt' and x[1].startswith(('vfs::', 'utils::')) else None
        if c and len(c) == 1:
            return F.call_body(c[0], args, st)
        return [(x, st)]
    if v[0] == 'ref':
        x = F.read(st, F.derefloc(st, v))
        if x[0] in ('T', 's', 'seq'):
            return [(x, st)]
    return [(v, st)]

@model('core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'core::option::Option::<&mut T>::cloned')
def cloned(F, args, st, ctx):
    out = []
    for x, s in F.variant(st, args[0], 2):
        out.append((SOME(F.read(s, F.derefloc(s, F.payload(s, args[0], 1)))) if x else NONE, s))
    return out

@model('alloc::boxed::Box::<T>::new', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::rc::Rc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new', 'alloc::boxed::Box::<T>::pin')
def newbox(F, args, st, ctx):
    return [(('box', st.cell(args[0])), st)]

@model('core::pin::Pin::<Ptr>::new', 'core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<Ptr>::into_inner', 'core::pin::Pin::<Ptr>::into_inner_unchecked', 'core::hint::must_use',
       'core::hint::black_box', 'alloc::string::String::into_boxed_str', VEC + 'into_boxed_slice', 'core::convert::identity', 'core::iter::traits::iterator::Iterator::by_ref',
       'core::mem::manually_drop::ManuallyDrop::<T>::new', 'alloc::string::String::into_bytes', 'core::iter::traits::iterator::Iterator::fuse')
def same(F, args, st, ctx):
    return [(args[0], st)]

@model('core::mem::take', 'core::mem::replace')
def take(F, args, st, ctx):
    loc = F.derefloc(st, args[0])
    old = F.read(st, loc)
    new = args[1] if len(args) > 1 else dfl(F, ctx)
    F.write(st, loc, new, (F.stack[-1] if F.stack else '', ctx[2]))
    return [(old, st)]

@model('core::mem::swap')
def swap(F, args, st, ctx):
    a, b = F.derefloc(st, args[0]), F.derefloc(st, args[1])
    x, y = F.read(st, a), F.read(st, b)
    F.write(st, a, y)
    F.write(st, b, x)
    return [(UNIT, st)]

@model('core::mem::drop')
def dropm(F, args, st, ctx):
    F.dropv(st, args[0], ctx[3][0] if ctx[3] else '', F.stack[-1] if F.stack else '')
    return [(UNIT, st)]

def dfl(F, ctx):
    ta = ctx[1].get('ta') or []
    t = ta[0] if ta else None
    if isinstance(t, int) and ctx[0] is not None:
        t = ctx[0]['tys'][t]['s']
    c = F.impl.get((str(t).split('<')[0], 'default'))
    if c and len(c) == 1 and F.fns[c[0]]['local'] and F.fns[c[0]]['argc'] == 0:
        from flow import S
        r = F.call_body(c[0], [], S())
        if len(r) == 1 and r[0][0][0] == 'adt':
            return r[0][0]
    return default_of(str(t)) if t else T('default', '')
def default_of(t):
    if t.startswith(('std::vec::Vec', 'alloc::vec::Vec', 'std::collections::HashSet', 'utils::FastHashSet', 'std::collections::hash')) or 'HashSet<' in t.split('::')[-1][:8]:
        return ('seq', None, ())
    if t.startswith(('std::option::Option', 'core::option::Option')):
        return NONE
    if t == 'bool' or t in ('usize', 'u32', 'u64', 'i32'):
        return I(0)
    return T('default', t)

@model('core::default::Default::default')
def default(F, args, st, ctx):
    key = ctx[1].get('key') or ''
    if key in F.fns and F.fns[key]['local']:
        return None
    t = ''
    if ctx[0] is not None:
        ta = ctx[1].get('ta') or []
        if ta:
            t = ta[0] if not isinstance(ta[0], int) else ctx[0]['tys'][ta[0]]['s']
    if 'RwLock<' in t and t.split('<')[0].endswith('RwLock') or t.split('<')[0].endswith('Mutex'):
        return [(('adt', 'Lock', 0, (T('default', t.split('<', 1)[1][:-1]),)), st)]
    return [(default_of(t), st)]

@model('alloc::rcs::arc::Arc::<T, A>::downgrade', 'alloc::sync::Arc::<T, A>::downgrade')
def downgrade(F, args, st, ctx):
    v = F.read(st, F.derefloc(st, args[0])) if args[0][0] == 'ref' else args[0]
    return [(('adt', 'Weak', 0, (v,)), st)]
@model('alloc::rcs::arc::Weak::<T, A>::upgrade', 'alloc::sync::Weak::<T, A>::upgrade')
def upgrade(F, args, st, ctx):
    v = args[0]
    for _ in range(3):
        if v[0] != 'ref':
            break
        v = F.read(st, F.derefloc(st, v))
    if v[0] == 'adt' and v[1] == 'Weak':
        return [(SOME(v[3][0]), st)]
    return [(SOME(T('strong', norm(v))), st)]
@model('alloc::rcs::arc::Arc::<T, A>::ptr_eq')
def ptreq(F, args, st, ctx):
    return [(F.eqterm(T('addr', norm(F.resolve(st, args[0]))), T('addr', norm(F.resolve(st, args[1])))), st)]

# ------------------------------------------------------------ comparison
@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def eq(F, args, st, ctx):
    if (ctx[1].get('key') or '') in F.local:
        return None
    out = []
    for v, s in eqv(F, args[0], args[1], st):
        out.append((F.neg(v) if ctx[1].get('def', '').endswith('::ne') else v, s))
    return out
def eqv(F, a, b, st):
    a, b = F.deep(st, a), F.deep(st, b)
    if b[0] == 'adt' and a[0] != 'adt':
        a, b = b, a
    if a[0] == 'adt' and (b[0] == 'adt' or b[0] == 'T'):
        c = F.impl.get((a[1], 'eq'))
        if c and len(c) == 1 and F.fns[c[0]]['local']:
            return F.call_body(c[0], [('ref', ('C', st.cell(a)), ()), ('ref', ('C', st.cell(b)), ())], st)
        nv = {OPTION: 2, 'core::result::Result': 2}.get(a[1]) or len((F.adts.get(a[1]) or {'v': [0]})['v'])
        out = []
        for x, s in F.variant(st, b, nv):
            if x != a[2]:
                out.append((I(0), s))
                continue
            cur = [(I(1), s)]
            for i, fa in enumerate(a[3]):
                nxt = []
                for v, s2 in cur:
                    if v == I(0):
                        nxt.append((v, s2))
                        continue
                    for w, s3 in eqv(F, fa, F.payload(s2, b, x, i), s2):
                        if v == I(1):
                            nxt.append((w, s3))
                        else:
                            for y, s4 in F.fork(s3, v):
                                nxt.append((w if y else I(0), s4))
                cur = nxt
            out += cur
        return out
    if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
        cur = [(I(1), st)]
        for x, y in zip(a[1], b[1]):
            nxt = []
            for v, s in cur:
                if v == I(0):
                    nxt.append((v, s))
                    continue
                for w, s2 in eqv(F, x, y, s):
                    for k, s3 in (F.fork(s2, v) if v[0] != 'i' else [(v[1], s2)]):
                        nxt.append((w if k else I(0), s3))
            cur = nxt
        return cur
    v = F.eqterm(norm(F.resolve(st, a)), norm(F.resolve(st, b)))
    if v[0] == 'T':
        v = F.canon(v)[0]
        if v in st.facts:
            return [(I(st.facts[v]), st)]
    return [(v, st)]

@model('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def discr(F, args, st, ctx):
    return [(F.discr(st, F.deep(st, args[0])), st)]

def pure(*names):
    for n in names:
        MODELS[n] = lambda F, args, st, ctx: F.opaque_call(ctx[1].get('def'), args, st, ctx[2], [''] * len(args), pure=True)
pure('core::str::<impl str>::len', 'core::str::<impl str>::is_empty', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::contains', 'core::str::<impl str>::starts_with',
     'core::str::<impl str>::ends_with', 'core::str::<impl str>::find', 'core::str::<impl str>::rfind', 'core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix',
     'std::path::Path::parent', 'std::path::Path::join', 'std::path::Path::starts_with', 'std::path::Path::to_str', 'std::path::Path::is_absolute', 'alloc::string::String::is_empty',
     'alloc::string::String::len', 'std::fs::FileType::is_dir', 'std::fs::FileType::is_file', 'std::fs::FileType::is_symlink', 'std::fs::Metadata::is_dir', 'std::fs::Metadata::is_file',
     'std::fs::Metadata::is_symlink', 'std::fs::Metadata::file_type', 'core::str::<impl str>::trim', 'core::str::<impl str>::split', 'core::str::<impl str>::lines', 'core::str::<impl str>::eq_ignore_ascii_case',
     'core::str::<impl str>::chars', 'core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge', 'std::path::Path::components', 'std::path::Path::ancestors')

# ------------------------------------------------------------ locks and cells
def lock_id(F, st, a):
    while a[0] == 'ref' and a[1][0] == 'C':
        v = F.read(st, (a[1], a[2]))
        if v[0] not in ('ref', 'T'):
            break
        a = v
    if a[0] == 'ref':
        return ('L', a[1], a[2]) if a[1][0] == 'C' else norm(a[1][1]) if not a[2] else ('L', norm(a[1][1]), a[2])
    if a[0] == 'box':
        return ('L', ('C', a[1]), ())
    return norm(a)
def inner(F, st, a):
    """pointer to what a lock or cell holds"""
    while a[0] == 'ref':
        v = F.read(st, (a[1], a[2]))
        if v[0] == 'adt' and v[1] in ('Lock', 'Once'):
            return ('ref', a[1], a[2] + (('f', 0, None),))
        if v[0] in ('ref', 'box') or v[0] == 'T' and a[1][0] == 'C':
            a = v
            continue
        if a[1][0] == 'H' and not a[2]:
            return ('ref', ('H', T('in', a[1][1])), ())
        break
    if a[0] == 'box':
        v = st.mem[a[1]]
        return ('ref', ('C', a[1]), (('f', 0, None),)) if v[0] == 'adt' and v[1] in ('Lock', 'Once') else T('in', norm(F.resolve(st, a)))
    if a[0] == 'T':
        return ('ref', ('H', T('in', a)), ())
    return ('ref', ('H', T('in', T('val', norm(F.resolve(st, a))))), ())
def acquire(mode):
    def m(F, args, st, ctx):
        lid = lock_id(F, st, args[0])
        gid = st.cell(None)
        st.emit('acquire', mode, lid, gid, F.stack[-1] if F.stack else '', ctx[2])
        return [(OK(('guard', mode, lid, inner(F, st, args[0]), gid)), st)]
    return m
MODELS['std::sync::poison::mutex::Mutex::<T>::lock'] = acquire('lock')
MODELS['std::sync::poison::rwlock::RwLock::<T>::read'] = acquire('read')
MODELS['std::sync::poison::rwlock::RwLock::<T>::write'] = acquire('write')
@model('std::sync::poison::mutex::Mutex::<T>::new', 'std::sync::poison::rwlock::RwLock::<T>::new')
def newlock(F, args, st, ctx):
    return [(('adt', 'Lock', 0, (args[0],)), st)]
@model('std::sync::poison::rwlock::RwLock::<T>::get_mut', 'std::sync::poison::mutex::Mutex::<T>::get_mut')
def lock_get_mut(F, args, st, ctx):
    return [(OK(inner(F, st, args[0])), st)]
@model('std::sync::poison::rwlock::RwLock::<T>::into_inner', 'std::sync::poison::mutex::Mutex::<T>::into_inner')
def lock_into(F, args, st, ctx):
    v = args[0]
    if v[0] == 'adt' and v[1] == 'Lock':
        return [(OK(v[3][0]), st)]
    a = v[2] if v[0] == 'T' and v[1] == 'val' else v
    return [(OK(F.hread(st, T('in', a))), st)]
OL = 'std::sync::once_lock::OnceLock::<T>::'
@model(OL + 'new', 'core::cell::once::OnceCell::<T>::new')
def once_new(F, args, st, ctx):
    return [(('adt', 'Once', 0, (NONE,)), st)]
def once_opt(F, st, a):
    p = inner(F, st, a)
    return p, F.read(st, F.derefloc(st, p))
@model(OL + 'get', OL + 'get_mut')
def once_get(F, args, st, ctx):
    p, v = once_opt(F, st, args[0])
    out = []
    for x, s in F.variant(st, v, 2):
        loc = F.derefloc(s, p)
        if x and v[0] == 'T':
            r = ('ref', ('H', T('fld', T('as', loc[0][1], 1), 0, 0)), ()) if loc[0][0] == 'H' and not loc[1] else F.payload(s, v, 1)
        elif x:
            r = ('ref', loc[0], loc[1] + (('d', 1), ('f', 0, None)))
        out.append((SOME(r) if x else NONE, s))
    return out
@model(OL + 'set')
def once_set(F, args, st, ctx):
    p, v = once_opt(F, st, args[0])
    st.emit('call', OL + 'set', (norm(F.resolve(st, args[0])), norm(F.resolve(st, args[1]))), UNIT, F.stack[-1] if F.stack else '', ctx[2])
    out = []
    for x, s in F.variant(st, v, 2):
        if not x:
            F.write(s, F.derefloc(s, p), SOME(args[1]), (F.stack[-1], ctx[2]))
        out.append((ERR(args[1]) if x else OK(UNIT), s))
    return out
@model(OL + 'take')
def once_take(F, args, st, ctx):
    p, v = once_opt(F, st, args[0])
    F.write(st, F.derefloc(st, p), NONE, (F.stack[-1], ctx[2]))
    return [(v, st)]
@model(OL + 'into_inner')
def once_into(F, args, st, ctx):
    v = args[0]
    if v[0] == 'adt' and v[1] == 'Once':
        return [(v[3][0], st)]
    a = v[2] if v[0] == 'T' and v[1] == 'val' else v
    return [(F.hread(st, T('in', a)), st)]
@model(OL + 'get_or_init')
def once_init(F, args, st, ctx):
    out = []
    for r, s in once_get(F, args[:1], st, ctx):
        if r != NONE:
            out.append((r[3][0], s))
            continue
        for v, s2 in F.call_value(args[1], [], s, ctx[2]):
            p = inner(F, s2, args[0])
            F.write(s2, F.derefloc(s2, p), SOME(v), (F.stack[-1] if F.stack else '', ctx[2]))
            loc = F.derefloc(s2, p)
            out.append((('ref', loc[0], loc[1] + (('d', 1), ('f', 0, None))), s2))
    return out
@model('std::thread::local::LocalKey::<T>::with')
def tls(F, args, st, ctx):
    return F.call_value(args[1], [T('tls', norm(F.resolve(st, args[0])))], st, ctx[2])
@model('arc_swap::ArcSwapAny::<T, S>::load')
def as_load(F, args, st, ctx):
    p = inner(F, st, args[0])
    v = F.read(st, F.derefloc(st, p))
    st.emit('call', 'arc_swap load', (norm(F.resolve(st, args[0])),), norm(F.resolve(st, v)), F.stack[-1] if F.stack else '', ctx[2])
    return [(v, st)]
@model('arc_swap::ArcSwapAny::<T, S>::store')
def as_store(F, args, st, ctx):
    st.emit('call', 'arc_swap store', (norm(F.resolve(st, args[0])), norm(F.resolve(st, args[1]))), UNIT, F.stack[-1] if F.stack else '', ctx[2])
    F.write(st, F.derefloc(st, inner(F, st, args[0])), args[1])
    return [(UNIT, st)]

# ------------------------------------------------------------ hash maps (terms with a history)
def mapterm(F, st, a):
    return norm(F.resolve(st, a))
def mget(m, k):
    while m[0] == 'T' and m[1] in ('mapins', 'mapdel') and m[3] != k and m[3][0] == 's' and k[0] == 's':
        m = m[2]
    if m[0] == 'T' and m[1] == 'mapins' and m[3] == k:
        return SOME(m[4])
    if m[0] == 'T' and m[1] == 'mapdel' and m[3] == k or m[0] == 'T' and m[1] == 'default' or m == ('seq', None, ()):
        return NONE
    return T('mapget', m, k)
@model(HM + 'get', HM + 'get_mut', HM + 'get_key_value')
def map_get(F, args, st, ctx):
    m, k = mapterm(F, st, args[0]), mapterm(F, st, args[1])
    v = mget(m, k)
    if v[0] != 'T':
        return [(v, st)]
    out = []
    for x, s in F.variant(st, v, 2):
        if x and ctx[1]['def'].endswith('get_mut'):
            a = T('slot', norm(F.resolve(st, args[0])), k)
            if a not in s.heap:
                s.heap[a] = F.payload(s, v, 1)
            out.append((SOME(('ref', ('H', a), ())), s))
        else:
            out.append((SOME(F.payload(s, v, 1)) if x else NONE, s))
    return out
@model(HM + 'contains_key')
def map_has(F, args, st, ctx):
    m, k = mapterm(F, st, args[0]), mapterm(F, st, args[1])
    v = mget(m, k)
    st.emit('call', 'map contains_key', (m, k), v, F.stack[-1] if F.stack else '', ctx[2])
    return [(I(x), s) for x, s in F.variant(st, v, 2)]
@model(HM + 'insert')
def map_insert(F, args, st, ctx):
    m, k = mapterm(F, st, args[0]), mapterm(F, st, args[1])
    v = norm(F.resolve(st, args[2]))
    st.emit('call', 'map insert', (m, k, v), UNIT, F.stack[-1] if F.stack else '', ctx[2])
    F.write(st, F.derefloc(st, args[0]), T('mapins', m, k, v), quiet=True)
    return [(mget(m, k), st)]
@model(HM + 'remove', HM + 'remove_entry')
def map_remove(F, args, st, ctx):
    m, k = mapterm(F, st, args[0]), mapterm(F, st, args[1])
    v = mget(m, k)
    st.emit('call', 'map remove', (m, k), v, F.stack[-1] if F.stack else '', ctx[2])
    F.write(st, F.derefloc(st, args[0]), T('mapdel', m, k), quiet=True)
    return [(v, st)]
@model(HM + 'iter', HM + 'iter_mut', HM + 'keys', HM + 'values', HM + 'values_mut', HM + 'into_iter', HM + 'drain', HM + 'into_keys', HM + 'into_values')
def map_iter(F, args, st, ctx):
    m = mapterm(F, st, args[0])
    n = ctx[1]['def'].split('::')[-1]
    return [(('it', 'src', m, 0, 'key' if 'keys' in n else 'value' if 'values' in n else 'pair'), st)]
@model(HM + 'is_empty')
def map_empty(F, args, st, ctx):
    m = mapterm(F, st, args[0])
    return [(F.neg(T('more', m, 0)), st)]

# ------------------------------------------------------------ sequences and sets
@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'std::collections::hash::set::HashSet::<T>::new', 'std::collections::hash::set::HashSet::<T>::with_capacity',
       'alloc::collections::vec_deque::VecDeque::<T>::new')
def seq_new(F, args, st, ctx):
    return [(('seq', None, ()), st)]
def asseq(F, st, v):
    if v[0] == 'seq':
        return v
    if v[0] == 'arr':
        return ('seq', None, tuple(v[1]))
    if v[0] == 'T' and v[1] == 'default':
        return ('seq', None, ())
    return ('seq', norm(F.resolve(st, v)), ())
@model(VEC + 'push', HS + 'insert', 'alloc::collections::vec_deque::VecDeque::<T, A>::push_back')
def seq_push(F, args, st, ctx):
    loc = F.derefloc(st, args[0])
    old = F.deep(st, F.read(st, loc))
    s = asseq(F, st, old)
    st.emit('call', 'seq push', (norm(F.resolve(st, old)), norm(F.resolve(st, args[1]))), UNIT, F.stack[-1] if F.stack else '', ctx[2])
    while F.read(st, loc)[0] in ('ref', 'box'):
        loc = F.derefloc(st, F.read(st, loc))
    F.write(st, loc, ('seq', s[1], s[2] + (args[1],)), quiet=True)
    return [(T('inserted', norm(F.resolve(st, old)), norm(F.resolve(st, args[1]))), st)]
@model(VEC + 'insert')
def vec_insert(F, args, st, ctx):
    loc = F.derefloc(st, args[0])
    old = F.deep(st, F.read(st, loc))
    s = asseq(F, st, old)
    st.emit('call', 'seq insert', (norm(F.resolve(st, old)), norm(args[1]), norm(F.resolve(st, args[2]))), UNIT, F.stack[-1] if F.stack else '', ctx[2])
    if args[1] == I(0) and not s[1]:
        new = ('seq', None, (args[2],) + s[2])
    else:
        new = T('vecins', norm(F.resolve(st, old)), norm(args[1]), norm(F.resolve(st, args[2])))
    F.write(st, loc, new, quiet=True)
    return [(UNIT, st)]
@model(VEC + 'len', HS + 'len', 'core::slice::<impl [T]>::len')
def seq_len(F, args, st, ctx):
    v = F.deep(st, args[0])
    if v[0] == 'seq' and v[1] is None and 'HashSet' not in ctx[1]['def']:
        return [(I(len(v[2])), st)]
    return [(T('len', norm(F.resolve(st, v))), st)]
@model(VEC + 'is_empty', HS + 'is_empty', 'core::slice::<impl [T]>::is_empty')
def seq_empty(F, args, st, ctx):
    v = F.deep(st, args[0])
    if v[0] == 'seq':
        if v[2]:
            return [(I(0), st)]
        if v[1] is None:
            return [(I(1), st)]
        return [(F.neg(T('more', v[1], 0)), st)]
    return [(F.neg(T('more', norm(F.resolve(st, v)), 0)), st)]
@model(HS + 'contains', 'core::slice::<impl [T]>::contains')
def seq_has(F, args, st, ctx):
    v, k = F.deep(st, args[0]), norm(F.resolve(st, args[1]))
    if v[0] == 'seq' and k in [norm(F.resolve(st, x)) for x in v[2]]:
        return [(I(1), st)]
    if v[0] == 'seq' and v[1] is None and not v[2]:
        return [(I(0), st)]
    return [(T('contains', norm(F.resolve(st, v)), k), st)]
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', HS + 'iter', VEC + 'iter', HS + 'drain')
def seq_iter(F, args, st, ctx):
    return [(mkiter(F, st, args[0]), st)]
@model(VEC + 'drain')
def vec_drain(F, args, st, ctx):
    st.emit('call', 'drain', (norm(F.resolve(st, args[0])), F.resolve(st, args[1])), UNIT, F.stack[-1], ctx[2])
    return [(mkiter(F, st, args[0]), st)]
@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first')
def seq_end(F, args, st, ctx):
    v = F.deep(st, args[0])
    if v[0] == 'seq' and v[2] and (ctx[1]['def'].endswith('last') or not v[1]):
        return [(SOME(v[2][-1] if ctx[1]['def'].endswith('last') else v[2][0]), st)]
    return F.opaque_call(ctx[1]['def'], args, st, ctx[2], [''] * len(args), pure=True)

# ------------------------------------------------------------ iterators
def mkiter(F, st, v):
    n = 0
    while n < 8:
        n += 1
        if v[0] == 'it':
            return v
        if v[0] == 'seq':
            l = ('it', 'list', v[2], 0)
            return l if v[1] is None else ('it', 'chain', ('it', 'src', v[1], 0, ''), l)
        if v[0] == 'arr':
            return ('it', 'list', tuple(v[1]), 0)
        if v[0] == 'adt' and v[1] == OPTION:
            return ('it', 'list', v[3], 0)
        if v[0] in ('ref', 'box'):
            x = F.read(st, F.derefloc(st, v))
            if x[0] == 'it':
                return ('it', 'ref', v)
            v = x
            continue
        break
    return ('it', 'src', norm(F.resolve(st, v)), 0, '')
@model('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(F, args, st, ctx):
    v = args[0]
    if v[0] == 'adt' and (v[1], 'next') in F.impl:
        return [(v, st)]
    if (ctx[1].get('key') or '') in F.local:
        return None
    return [(mkiter(F, st, v), st)]
def elem(m, n, kind):
    if kind == 'pair':
        return ('tup', (T('key', m, n), T('value', m, n)))
    return T(kind or 'elem', m, n)
def step(F, it, st, line, back=False):
    """-> [(element or None, iterator, state)]"""
    k = it[1]
    if k == 'src':
        m, n = it[2], it[3]
        if n >= F.items:
            st.facts[('bounded', m)] = 1
            return [(None, it, st)]
        out = []
        for x, s in F.fork(st, T('more', m, n)):
            out.append((elem(m, n, it[4]), it[:3] + (n+1,) + it[4:], s) if x else (None, it, s))
        return out
    if k == 'list':
        if it[3] < len(it[2]):
            return [(it[2][it[3]], it[:3] + (it[3]+1,), st)]
        return [(None, it, st)]
    if k == 'ref':
        out = []
        inner_it = F.read(st, F.derefloc(st, it[2]))
        for e, i2, s in step(F, inner_it if inner_it[0] == 'it' else mkiter(F, st, inner_it), st, line):
            F.write(s, F.derefloc(s, it[2]), i2, quiet=True)
            out.append((e, it, s))
        return out
    if k == 'chain':
        out = []
        for e, i2, s in step(F, it[2], st, line):
            if e is not None:
                out.append((e, ('it', 'chain', i2, it[3]), s))
            else:
                out += step(F, it[3], s, line)
        return out
    if k == 'map':
        out = []
        for e, i2, s in step(F, it[2], st, line):
            if e is None:
                out.append((None, it, s))
                continue
            for r, s2 in F.call_value(it[3], [e], s, line):
                out.append((r, ('it', 'map', i2, it[3]), s2))
        return out
    if k in ('filter', 'filter_map', 'take_while', 'map_while'):
        out, work = [], [(it, st)]
        while work:
            i, s = work.pop()
            for e, i2, s1 in step(F, i[2], s, line):
                n = ('it', k, i2, it[3])
                if e is None:
                    out.append((None, n, s1))
                elif k in ('filter', 'take_while'):
                    for r, s2 in F.call_value(it[3], [('ref', ('C', s1.cell(e)), ())], s1, line):
                        for x, s3 in F.fork(s2, F.deep(s2, r)):
                            if x:
                                out.append((e, n, s3))
                            elif k == 'take_while':
                                out.append((None, ('it', 'list', (), 0), s3))
                            else:
                                work.append((n, s3))
                else:
                    for r, s2 in F.call_value(it[3], [e], s1, line):
                        for x, s3 in F.variant(s2, r, 2):
                            if x:
                                out.append((F.payload(s3, r, 1), n, s3))
                            elif k == 'map_while':
                                out.append((None, ('it', 'list', (), 0), s3))
                            else:
                                work.append((n, s3))
        return out
    if k == 'enum':
        return [((None if e is None else ('tup', (I(it[3]), e))), ('it', 'enum', i2, it[3]+1), s) for e, i2, s in step(F, it[2], st, line)]
    if k == 'copied':
        return [((None if e is None else F.read(s, F.derefloc(s, e)) if e[0] == 'ref' else e), ('it', 'copied', i2), s) for e, i2, s in step(F, it[2], st, line)]
    if k == 'skip':
        cur = [(it[2], st)]
        for _ in range(it[3]):
            cur = [(i2, s2) for i, s in cur for e, i2, s2 in step(F, i, s, line)]
        return [x for i, s in cur for x in step(F, i, s, line)]
    if k == 'take':
        if it[3] == 0:
            return [(None, it, st)]
        return [(e, ('it', 'take', i2, it[3]-1), s) for e, i2, s in step(F, it[2], st, line)]
    if k == 'peek':
        if it[3] is not None:
            return [(it[3][0], ('it', 'peek', it[2], None), st)]
        return [(e, ('it', 'peek', i2, None), s) for e, i2, s in step(F, it[2], st, line)]
    if k == 'zip':
        out = []
        for e, i2, s in step(F, it[2], st, line):
            for e3, i3, s3 in step(F, it[3], s, line) if e is not None else [(None, it[3], s)]:
                out.append((None if e is None or e3 is None else ('tup', (e, e3)), ('it', 'zip', i2, i3), s3))
        return out
    if k == 'flat':
        out = []
        cur = it[3]
        if cur is not None:
            for e, i2, s in step(F, cur, st, line):
                if e is not None:
                    out.append((e, ('it', 'flat', it[2], i2), s))
                else:
                    out += step(F, ('it', 'flat', it[2], None), s, line)
            return out
        for e, i2, s in step(F, it[2], st, line):
            if e is None:
                out.append((None, it, s))
            else:
                out += step(F, ('it', 'flat', i2, mkiter(F, s, e)), s, line)
        return out
    if k == 'rev':
        x = it[2]
        if x[1] == 'list':
            return step(F, ('it', 'list', tuple(reversed(x[2][x[3]:])), 0), st, line)
        if x[1] == 'src':
            return step(F, ('it', 'src', T('rev', x[2]), x[3], x[4]), st, line)
        return step(F, ('it', 'src', T('rev', x), 0, ''), st, line)
    raise KeyError(k)
def slot(F, st, a):
    """the iterator a pointer leads to -> (location or None, iterator)"""
    v = a
    loc = None
    n = 0
    while v[0] in ('ref', 'box') and n < 8:
        loc = F.derefloc(st, v)
        v = F.read(st, loc)
        n += 1
    return loc, v if v[0] == 'it' else mkiter(F, st, v)
def custom(F, args, ctx, st):
    v = F.deep(st, args[0])
    return (ctx[1].get('key') or '') in F.local or v[0] == 'adt' and v[1] != OPTION and v[1].split('::')[0] in ('vfs', 'utils', 'parsa', 'parsa_python_cst')
@model(IT + 'next')
def it_next(F, args, st, ctx):
    if custom(F, args, ctx, st):
        return None
    loc, it = slot(F, st, args[0])
    out = []
    for e, i2, s in step(F, it, st, ctx[2]):
        if loc is not None:
            F.write(s, loc, i2, quiet=True)
        out.append((NONE if e is None else SOME(e), s))
    return out
@model("core::iter::adapters::peekable::Peekable::<I>::peek")
def it_peek(F, args, st, ctx):
    loc, it = slot(F, st, args[0])
    if it[1] != 'peek':
        it = ('it', 'peek', it, None)
    if it[3] is not None:
        return [(NONE if it[3][0] is None else SOME(it[3][0]), st)]
    out = []
    for e, i2, s in step(F, it[2], st, ctx[2]):
        F.write(s, loc, ('it', 'peek', i2, (e,)), quiet=True)
        out.append((NONE if e is None else SOME(e), s))
    return out
@model("core::iter::adapters::peekable::Peekable::<I>::next_if", "core::iter::adapters::peekable::Peekable::<I>::next_if_eq")
def it_next_if(F, args, st, ctx):
    out = []
    for o, s in it_peek(F, args, st, ctx):
        if o == NONE:
            out.append((NONE, s))
            continue
        loc, it = slot(F, s, args[0])
        e = it[3][0]
        if (ctx[1].get('def') or '').endswith('_eq'):
            rs = F.fork(s, T('eq', *sorted((norm(F.resolve(s, e)), norm(F.resolve(s, args[1]))), key=lambda x: x[0] == 'i')))
        else:
            rs = [(x, s4) for r, s2 in F.call_value(args[1], [byref(s, e)], s, ctx[2]) for x, s4 in F.fork(s2, r)]
        for x, s2 in rs:
            if x:
                F.write(s2, loc, ('it', 'peek', it[2], None), quiet=True)
                out.append((SOME(e), s2))
            else:
                out.append((NONE, s2))
    return out
@model('core::cmp::Ord::min', 'core::cmp::Ord::max')
def ord_minmax(F, args, st, ctx):
    a, b = (norm(F.resolve(st, x)) for x in args[:2])
    if not all(x[0] in ('i', 'T') for x in (a, b)):
        return None
    least = ctx[1]['def'].endswith('min')
    if a[0] == 'i' and b[0] == 'i':
        return [((a if (a[1] <= b[1]) == least else b), st)]
    return [(a if bool(x) != least else b, s) for x, s in F.fork(st, T('lt', b, a))]
@model("<core::iter::adapters::peekable::Peekable<I> as core::iter::traits::iterator::Iterator>::nth", IT + "nth")
def it_nth(F, args, st, ctx):
    loc, it = slot(F, st, args[0])
    n = norm(F.resolve(st, args[1]))
    if n[0] == 'i' or it[1] != 'peek' or it[2][1] != 'src' or loc is None:
        return None
    src, taken = it[2], it[2][3] - (it[3] is not None and it[3][0] is not None)
    st.emit('call', 'nth', (src[2], I(taken), n), UNIT, F.stack[-1], ctx[2])
    rest = T('after', src[2], I(taken), n)
    F.write(st, loc, ('it', 'peek', ('it', 'src', rest, 0, src[4]), None), quiet=True)
    return [(SOME(T('last', rest)) if x else NONE, s) for x, s in F.fork(st, T('exists', rest))]
@model(*['core::num::<impl %s>::saturating_sub' % t for t in ('usize', 'u8', 'u16', 'u32', 'u64')])
def sat_sub(F, args, st, ctx):
    a, b = [norm(F.resolve(st, x)) for x in args]
    if a[0] == 'i' and b[0] == 'i':
        return [(I(max(0, a[1] - b[1])), st)]
    return [(I(0) if x else F.binop(s, 'Sub', a, b), s) for x, s in F.fork(st, T('lt', a, b))]
def adapter(name, mk):
    def m(F, args, st, ctx):
        if F.deep(st, args[0])[0] == 'adt' and custom(F, args, {1: {}}, st):
            return None
        return [(mk(F, st, mkiter(F, st, args[0]), args[1:]), st)]
    MODELS[IT + name] = m
adapter('map', lambda F, st, i, a: ('it', 'map', i, a[0]))
adapter('filter', lambda F, st, i, a: ('it', 'filter', i, a[0]))
adapter('filter_map', lambda F, st, i, a: ('it', 'filter_map', i, a[0]))
adapter('take_while', lambda F, st, i, a: ('it', 'take_while', i, a[0]))
adapter('map_while', lambda F, st, i, a: ('it', 'map_while', i, a[0]))
adapter('flat_map', lambda F, st, i, a: ('it', 'flat', ('it', 'map', i, a[0]), None))
adapter('flatten', lambda F, st, i, a: ('it', 'flat', i, None))
adapter('chain', lambda F, st, i, a: ('it', 'chain', i, mkiter(F, st, a[0])))
adapter('zip', lambda F, st, i, a: ('it', 'zip', i, mkiter(F, st, a[0])))
adapter('enumerate', lambda F, st, i, a: ('it', 'enum', i, 0))
adapter('cloned', lambda F, st, i, a: ('it', 'copied', i))
adapter('copied', lambda F, st, i, a: ('it', 'copied', i))
adapter('peekable', lambda F, st, i, a: ('it', 'peek', i, None))
adapter('rev', lambda F, st, i, a: ('it', 'rev', i))
adapter('skip', lambda F, st, i, a: ('it', 'skip', i, a[0][1]) if a[0][0] == 'i' else ('it', 'src', T('skip', norm(i), norm(a[0])), 0, ''))
adapter('take', lambda F, st, i, a: ('it', 'take', i, a[0][1]) if a[0][0] == 'i' else ('it', 'src', T('take', norm(i), norm(a[0])), 0, ''))
@model('core::iter::sources::once::once')
def once(F, args, st, ctx):
    return [(('it', 'list', (args[0],), 0), st)]
@model('core::iter::sources::empty::empty')
def empty(F, args, st, ctx):
    return [(('it', 'list', (), 0), st)]

def consume(F, args, st, ctx, f, end):
    """f(element, state) -> [(done?, value, state)]; end(state) -> value when exhausted"""
    if custom(F, args, ctx, st):
        return None
    loc, it = slot(F, st, args[0])
    out, work = [], [(it, st)]
    while work:
        i, s = work.pop()
        F.steps += 1
        for e, i2, s1 in step(F, i, s, ctx[2]):
            if e is None:
                if loc is not None and args[0][0] in ('ref', 'box'):
                    F.write(s1, loc, i2, quiet=True)
                out.append((end(s1), s1))
                continue
            for done, v, s2 in f(e, s1):
                if done:
                    if loc is not None and args[0][0] in ('ref', 'box'):
                        F.write(s2, loc, i2, quiet=True)
                    out.append((v, s2))
                else:
                    work.append((i2, s2))
    return out
def byref(st, e):
    return ('ref', ('C', st.cell(e)), ())
def boolstep(F, f, want, val, ref=False):
    def g(e, s, line=0):
        out = []
        for r, s2 in F.call_value(f, [byref(s, e) if ref else e], s, line):
            for x, s3 in F.fork(s2, F.deep(s2, r)):
                out.append((x == want, val(e), s3))
        return out
    return g
@model(IT + 'any')
def it_any(F, args, st, ctx):
    return consume(F, args, st, ctx, boolstep(F, args[1], 1, lambda e: I(1)), lambda s: I(0))
@model(IT + 'all')
def it_all(F, args, st, ctx):
    return consume(F, args, st, ctx, boolstep(F, args[1], 0, lambda e: I(0)), lambda s: I(1))
@model(IT + 'find', DI + 'rfind')
def it_find(F, args, st, ctx):
    return consume(F, args, st, ctx, boolstep(F, args[1], 1, lambda e: SOME(e), True), lambda s: NONE)
@model(IT + 'position')
def it_pos(F, args, st, ctx):
    return consume(F, args, st, ctx, boolstep(F, args[1], 1, lambda e: SOME(T('position', norm(e)))), lambda s: NONE)
@model(IT + 'find_map')
def it_find_map(F, args, st, ctx):
    def f(e, s):
        out = []
        for r, s2 in F.call_value(args[1], [e], s, ctx[2]):
            for x, s3 in F.variant(s2, r, 2):
                out.append((x == 1, r, s3))
        return out
    return consume(F, args, st, ctx, f, lambda s: NONE)
@model(IT + 'for_each')
def it_for_each(F, args, st, ctx):
    return consume(F, args, st, ctx, lambda e, s: [(False, None, s2) for r, s2 in F.call_value(args[1], [e], s, ctx[2])], lambda s: UNIT)
def is_failure(F, st, r):
    """[(value is None / Err / Break, state)]"""
    v = F.deep(st, r)
    if v[0] == 'adt' and v[1] == OPTION:
        return [(v[2] == 0, st)]
    if v[0] == 'adt':
        return [(v[2] == 1, st)]
    if v == UNIT:
        return [(False, st)]
    return [(x == 1, s) for x, s in F.variant(st, v, 2)]
@model(IT + 'fold')
def it_fold(F, args, st, ctx):
    return fold(F, args, st, ctx, False)
@model(IT + 'try_fold')
def it_try_fold(F, args, st, ctx):
    return None
def fold(F, args, st, ctx, _):
    if custom(F, args, ctx, st):
        return None
    loc, it = slot(F, st, args[0])
    out, work = [], [(it, args[1], st)]
    while work:
        i, acc, s = work.pop()
        for e, i2, s1 in step(F, i, s, ctx[2]):
            if e is None:
                out.append((acc, s1))
            else:
                for r, s2 in F.call_value(args[2], [acc, e], s1, ctx[2]):
                    work.append((i2, r, s2))
    return out
@model(IT + 'try_for_each')
def it_try_for_each(F, args, st, ctx):
    def f(e, s):
        out = []
        for r, s2 in F.call_value(args[1], [e], s, ctx[2]):
            for x, s3 in is_failure(F, s2, r):
                out.append((x, r, s3))
        return out
    return consume(F, args, st, ctx, f, lambda s: OK(UNIT))
def gather(F, it, st, line):
    out, work = [], [(it, (), st)]
    while work:
        i, acc, s = work.pop()
        for e, i2, s1 in step(F, i, s, line):
            if e is None:
                out.append((acc, s1))
            else:
                work.append((i2, acc + (e,), s1))
    return out
@model(IT + 'collect')
def it_collect(F, args, st, ctx):
    if custom(F, args, ctx, st):
        return None
    ta = ctx[1].get('ta') or []
    loc, it = slot(F, st, args[0])
    if it[1] == 'src' and it[3] == 0 and it[4] == '':
        return [(('seq', it[2], ()), st)]
    base = None
    if it[1] == 'copied' and it[2][1] == 'src' and it[2][3] == 0 and it[2][4] == '':
        return [(('seq', it[2][2], ()), st)]
    if it[1] == 'chain' and it[2][1] == 'copied' and it[2][2][1] == 'src' and it[2][2][3] == 0:
        base, it = it[2][2][2], it[3]
    elif it[1] == 'chain' and it[2][1] == 'src' and it[2][3] == 0 and it[2][4] == '':
        base, it = it[2][2], it[3]
    return [(('seq', base, acc), s) for acc, s in gather(F, it, st, ctx[2])]
@model(IT + 'count')
def it_count(F, args, st, ctx):
    loc, it = slot(F, st, args[0])
    return [(T('count', norm(it)), st)]
@model(IT + 'last')
def it_last(F, args, st, ctx):
    if custom(F, args, ctx, st):
        return None
    loc, it = slot(F, st, args[0])
    return [(SOME(acc[-1]) if acc else NONE, s) for acc, s in gather(F, it, st, ctx[2])]
def extremum(name):
    def m(F, args, st, ctx):
        if custom(F, args, ctx, st):
            return None
        loc, it = slot(F, st, args[0])
        out = []
        for acc, s in gather(F, it, st, ctx[2]):
            if not acc:
                out.append((NONE, s))
                continue
            cur = [((), s)]
            if len(args) > 1 and name.endswith('_key'):
                for e in acc:
                    cur = [(ks + (r,), s3) for ks, s2 in cur for r, s3 in F.call_value(args[1], [byref(s2, e)], s2, ctx[2])]
            else:
                cur = [(acc, s)]
            for ks, s2 in cur:
                # which element wins: forked pairwise, in order
                best = [(0, s2)]
                for i in range(1, len(acc)):
                    nb = []
                    for b, s3 in best:
                        x, y = norm(F.resolve(s3, ks[b])), norm(F.resolve(s3, ks[i]))
                        # min: i replaces b iff y < x; max: i replaces b iff not (y < x)
                        for z, s4 in F.fork(s3, T('lt', y, x)):
                            nb.append((i if (z if name.startswith('min') else not z) else b, s4))
                    best = nb
                out += [(SOME(acc[b]), s3) for b, s3 in best]
        return out
    MODELS[IT + name] = m
for n in ('min_by_key', 'max_by_key', 'min', 'max'):
    extremum(n)
@model('core::iter::traits::collect::Extend::extend')
def extend(F, args, st, ctx):
    if (ctx[1].get('key') or '') in F.local:
        return None
    out = []
    loc0 = F.derefloc(st, args[0])
    while F.read(st, loc0)[0] in ('ref', 'box'):
        loc0 = F.derefloc(st, F.read(st, loc0))
    it = mkiter(F, st, args[1])
    for acc, s in gather(F, it, st, ctx[2]):
        q = asseq(F, s, F.read(s, loc0))
        for e in acc:
            s.emit('call', 'seq push', (norm(F.resolve(s, q)), norm(F.resolve(s, e))), UNIT, F.stack[-1] if F.stack else '', ctx[2])
        F.write(s, loc0, ('seq', q[1], q[2] + acc), quiet=True)
        out.append((UNIT, s))
    return out

# ------------------------------------------------------------ function values
def fncall(F, args, st, ctx):
    a = F.deep(st, args[1]) if len(args) > 1 else UNIT
    return F.call_value(args[0], list(a[1]) if a[0] == 'tup' else [a], st, ctx[2])
for n in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call'):
    MODELS[n] = fncall

# ------------------------------------------------------------ utils::InsertOnlyVec: stable slots
IOV = 'utils::InsertOnlyVec::<T, P>::'
def slotof(F, st, vec, i):
    return T('slot', norm(F.resolve(st, vec)), norm(F.resolve(st, i)))
@model(IOV + 'get')
def iov_get(F, args, st, ctx):
    t = slotof(F, st, args[0], args[1])
    return [(SOME(t) if x else NONE, s) for x, s in F.fork(st, T('exists', t))]
@model(IOV + 'set')
def iov_set(F, args, st, ctx):
    t = slotof(F, st, args[0], args[1])
    v = args[2]
    st.emit('call', 'slot set', (t, norm(F.resolve(st, v))), UNIT, F.stack[-1] if F.stack else '', ctx[2])
    F.write(st, (('H', t), ()), F.deep(st, v), quiet=True)
    return [(UNIT, st)]
@model(IOV + 'push')
def iov_push(F, args, st, ctx):
    vec = norm(F.resolve(st, args[0]))
    n = st.occ.get(('push', vec), 0)
    st.occ[('push', vec)] = n + 1
    idx = T('newidx', vec, n)
    t = T('slot', vec, idx)
    st.emit('call', 'slot push', (t, norm(F.resolve(st, args[1]))), UNIT, F.stack[-1] if F.stack else '', ctx[2])
    st.heap[t] = F.deep(st, args[1])
    return [(('tup', (t, idx)), st)]
@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(F, args, st, ctx):
    if 'InsertOnlyVec' in (ctx[1].get('key') or '') + (ctx[1].get('res') or ''):
        return [(slotof(F, st, args[0], args[1]), st)]
    return None
@model('core::ops::range::RangeInclusive::<Idx>::contains', 'core::ops::range::Range::<Idx>::contains', 'core::ops::range::RangeFrom::<Idx>::contains', 'core::ops::range::RangeTo::<Idx>::contains', 'core::ops::range::RangeToInclusive::<Idx>::contains')
def range_contains(F, args, st, ctx):
    r, k = F.deep(st, args[0]), norm(F.resolve(st, args[1]))
    n = ctx[1].get('def', '').split('::<')[0].split('::')[-1]
    if r[0] != 'adt':
        return [(T('contains', norm(F.resolve(st, r)), k), st)]
    f = [norm(F.resolve(st, x)) for x in r[3]]
    lo = f[0] if n in ('Range', 'RangeInclusive', 'RangeFrom') else None
    hi = f[1] if n in ('Range', 'RangeInclusive') else f[0] if n.startswith('RangeTo') else None
    out = []
    for z, s2 in (F.fork(st, T('lt', k, lo)) if lo is not None else [(0, st)]):
        if z:
            out.append((I(0), s2))
        elif hi is None:
            out.append((I(1), s2))
        elif 'Inclusive' in n:
            out += [(I(1 - int(y)), s3) for y, s3 in F.fork(s2, T('lt', hi, k))]
        else:
            out += [(I(int(y)), s3) for y, s3 in F.fork(s2, T('lt', k, hi))]
    return out
