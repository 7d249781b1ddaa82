"""Models of the library operations the analysed crates use.

A model is `f(I, st, args, ctx) -> [(state, value)]`; an empty list means the
call does not return (panic).  Anything without a model is an opaque call.
"""
from terms import *
from absint import Undecided, V, pc, pc_and, pc_inverse, Interp
import loops

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'


def alts(I, st, v, names):
    """Case split of an enum value with one-field variants.
    names: [(index, name, has payload)] -> [(state, name, payload)]"""
    if is_agg(v):
        for i, n, p in names:
            if v[2] == i:
                return [(st, n, v[4][0][1] if p and v[4] else None)]
        raise Undecided('variant')
    out = []
    for i, n, p in names:
        if v in st.variants and st.variants[v] != i:
            continue
        s = st.copy()
        s.variants[v] = i
        out.append((s, n, ('fld', ('as', v, n), '0') if p else None))
    return out


def option(I, st, v):
    return alts(I, st, v, [(0, 'None', False), (1, 'Some', True)])


def result(I, st, v):
    return alts(I, st, v, [(0, 'Ok', True), (1, 'Err', True)])


# ---------------------------------------------------------------- Try, Option, Result
@model('<std::result::Result<T, E> as std::ops::Try>::branch')
def _(I, st, a, c):
    out = []
    for s, n, p in result(I, st, a[0]):
        if n == 'Ok':
            out.append((s, agg(CF, 0, 'Continue', [('0', p)])))
        else:
            out.append((s, agg(CF, 1, 'Break', [('0', err(p))])))
    return out


@model('<std::option::Option<T> as std::ops::Try>::branch')
def _(I, st, a, c):
    out = []
    for s, n, p in option(I, st, a[0]):
        if n == 'Some':
            out.append((s, agg(CF, 0, 'Continue', [('0', p)])))
        else:
            out.append((s, agg(CF, 1, 'Break', [('0', NONE)])))
    return out


@model('<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<!, E>>>::from_residual')
def _(I, st, a, c):
    v = a[0]
    if is_agg(v):
        return [(st, err(v[4][0][1]))]
    return [(st, err(('fld', ('as', v, 'Err'), '0')))]


@model('<std::option::Option<T> as std::ops::FromResidual<std::option::Option<!>>>::from_residual')
def _(I, st, a, c):
    return [(st, NONE)]


@model('std::option::Option::map')
def _(I, st, a, c):
    out = []
    for s, n, p in option(I, st, a[0]):
        if n == 'None':
            out.append((s, NONE))
        else:
            for s2, v in I.call_value(s, c, a[1], [p]):
                out.append((s2, some(v)))
    return out


@model('std::result::Result::map')
def _(I, st, a, c):
    out = []
    for s, n, p in result(I, st, a[0]):
        if n == 'Err':
            out.append((s, err(p)))
        else:
            for s2, v in I.call_value(s, c, a[1], [p]):
                out.append((s2, ok(v)))
    return out


@model('std::option::Option::copied', 'std::option::Option::cloned')
def _(I, st, a, c):
    out = []
    for s, n, p in option(I, st, a[0]):
        out.append((s, NONE) if n == 'None' else (s, some(I.load(s, p))))
    return out


def unwrap(kind, want):
    def f(I, st, a, c):
        out = []
        for s, n, p in (option if kind == 'o' else result)(I, st, a[0]):
            if n == want:
                out.append((s, p))
            else:
                I.panics.append((s, c.path, c.fr.fn, c.line))
        return out
    return f


M['std::option::Option::unwrap'] = M['std::option::Option::expect'] = unwrap('o', 'Some')
M['std::option::Option::unwrap_unchecked'] = unwrap('o', 'Some')
M['std::result::Result::unwrap'] = M['std::result::Result::expect'] = unwrap('r', 'Ok')
M['std::result::Result::unwrap_err'] = unwrap('r', 'Err')


def isv(kind, want):
    def f(I, st, a, c):
        v = I.load(st, a[0])
        return [(s, TRUE if n == want else FALSE)
                for s, n, p in (option if kind == 'o' else result)(I, st, v)]
    return f


M['std::option::Option::is_some'] = isv('o', 'Some')
M['std::option::Option::is_none'] = isv('o', 'None')
M['std::result::Result::is_ok'] = isv('r', 'Ok')
M['std::result::Result::is_err'] = isv('r', 'Err')


@model('std::result::Result::unwrap_or')
def _(I, st, a, c):
    out = []
    for s, n, p in result(I, st, a[0]):
        if n == 'Ok':
            out.append((s, p))
        else:
            s = s.copy()
            I.event(s, c.fr, 'swallow', (p,), c.line, None, 'swallow')
            out.append((s, a[1]))
    return out


@model('std::result::Result::ok')
def _(I, st, a, c):
    out = []
    for s, n, p in result(I, st, a[0]):
        if n == 'Ok':
            out.append((s, some(p)))
        else:
            s = s.copy()
            I.event(s, c.fr, 'swallow', (p,), c.line, None, 'swallow')
            out.append((s, NONE))
    return out


@model('std::option::Option::ok_or')
def _(I, st, a, c):
    return [(s, ok(p) if n == 'Some' else err(a[1])) for s, n, p in option(I, st, a[0])]


@model('std::option::Option::as_ref', 'std::option::Option::as_mut')
def _(I, st, a, c):
    v = I.load(st, a[0])
    out = []
    for s, n, p in option(I, st, v):
        if n == 'None':
            out.append((s, NONE))
        elif isinstance(a[0], tuple) and a[0][0] == 'ref':
            out.append((s, some(('ref', a[0][1], a[0][2] + (('d', 1, 'Some'), ('f', '0'))))))
        else:
            out.append((s, some(('pref', p))))
    return out


@model('std::option::Option::take')
def _(I, st, a, c):
    v = I.load(st, a[0])
    I.store(st, a[0], NONE)
    return [(st, v)]


@model('std::option::Option::unwrap_or')
def _(I, st, a, c):
    return [(s, p if n == 'Some' else a[1]) for s, n, p in option(I, st, a[0])]


@model('std::option::Option::and_then')
def _(I, st, a, c):
    out = []
    for s, n, p in option(I, st, a[0]):
        if n == 'None':
            out.append((s, NONE))
        else:
            out += I.call_value(s, c, a[1], [p])
    return out


@model('std::option::Option::is_some_and')
def _(I, st, a, c):
    out = []
    for s, n, p in option(I, st, a[0]):
        if n == 'None':
            out.append((s, FALSE))
        else:
            out += I.call_value(s, c, a[1], [p])
    return out


# ---------------------------------------------------------------- mem, identity
@model('std::mem::replace')
def _(I, st, a, c):
    old = I.load(st, a[0])
    I.on_store(st, c.fr, *( (a[0][1], a[0][2]) if isinstance(a[0], tuple) and a[0][0] == 'ref'
                            else (('D', a[0]), ())), a[1], c.line)
    I.store(st, a[0], a[1])
    return [(st, old)]


@model('std::mem::swap')
def _(I, st, a, c):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], y)
    I.store(st, a[1], x)
    return [(st, UNIT)]


@model('std::mem::take')
def _(I, st, a, c):
    old = I.load(st, a[0])
    I.store(st, a[0], ('default', c.line))
    return [(st, old)]


@model('<T as std::convert::From<T>>::from')
def _(I, st, a, c):
    return [(st, a[0])]


@model('<I as std::iter::IntoIterator>::into_iter', 'std::convert::identity')
def _(I, st, a, c):
    return [(st, as_iter(a[0]))]


def as_iter(v):
    if is_agg(v, 'std::ops::Range'):
        return ('it', 'range', fget(v, 'start'), fget(v, 'end'))
    if is_agg(v, 'std::ops::RangeFrom'):
        return ('it', 'rangefrom', fget(v, 'start'))
    return v


# ---------------------------------------------------------------- integers
@model('core::num::<impl usize>::saturating_sub')
def _(I, st, a, c):
    return [(s, sub(a[0], a[1]) if t else 0) for s, t in st.fork(le(a[1], a[0]))]


@model('core::num::<impl usize>::checked_sub')
def _(I, st, a, c):
    return [(s, some(sub(a[0], a[1])) if t else NONE) for s, t in st.fork(le(a[1], a[0]))]


@model('core::num::<impl usize>::wrapping_sub')
def _(I, st, a, c):
    if st.ord.proves(le(a[1], a[0])):
        return [(st, sub(a[0], a[1]))]
    return [(st, ('wsub', a[0], a[1]))]


@model('std::cmp::impls::<impl std::cmp::Ord for usize>::min')
def _(I, st, a, c):
    return [(s, a[0] if t else a[1]) for s, t in st.fork(le(a[0], a[1]))]


@model('std::cmp::impls::<impl std::cmp::Ord for usize>::max')
def _(I, st, a, c):
    return [(s, a[1] if t else a[0]) for s, t in st.fork(le(a[0], a[1]))]


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def _(I, st, a, c):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    while isinstance(x, tuple) and x and x[0] == 'ref' and isinstance(y, tuple) and y and y[0] == 'ref':
        x, y = I.load(st, x), I.load(st, y)
    st = st.copy()
    if is_agg(x, 'std::option::Option') and is_agg(y, 'std::option::Option'):
        if x[3] != y[3] or x[3] == 'None':
            return [(st, TRUE if (x[3] == y[3]) != c.path.endswith('::ne') else FALSE)]
        x, y = deref(I, st, x[4][0][1]), deref(I, st, y[4][0][1])
    r = eqv(x, y)
    I.event(st, c.fr, 'eq', (x, y), c.line, r, 'eq')
    return [(st, r if not c.path.endswith('::ne') else neg(r))]


@model('std::clone::impls::<impl std::clone::Clone for usize>::clone')
def _(I, st, a, c):
    return [(st, I.load(st, a[0]))]


# ---------------------------------------------------------------- sequences
def is_ref(v):
    return isinstance(v, tuple) and v and v[0] == 'ref'


def seq_at(I, st, ref):
    v = I.load(st, ref)
    if isinstance(v, tuple) and v and v[0] == 'seq':
        return v
    raise Undecided('sequence %r' % (v[0] if isinstance(v, tuple) else v,))


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref',
       '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice')
def _(I, st, a, c):
    return [(st, a[0])]


@model('std::vec::Vec::len', 'core::slice::<impl [T]>::len')
def _(I, st, a, c):
    return [(st, I.ref_len(st, a[0]))]


@model('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::is_empty')
def _(I, st, a, c):
    return [(st, eq(I.ref_len(st, a[0]), 0))]


@model('std::vec::Vec::capacity')
def _(I, st, a, c):
    n = I.ref_len(st, a[0])
    cap = ('cap', a[0], n)
    s = st.assume(le(n, cap))
    return [(s or st, cap)]


@model('std::vec::Vec::new')
def _(I, st, a, c):
    return [(st, ('seq', ()))]


@model('std::vec::Vec::with_capacity')
def _(I, st, a, c):
    return [(st, ('seq', ()))]


@model('std::vec::Vec::reserve', 'std::vec::Vec::reserve_exact', 'std::vec::Vec::shrink_to',
       'std::vec::Vec::shrink_to_fit')
def _(I, st, a, c):
    return [(st, UNIT)]


@model('std::vec::Vec::try_reserve_exact', 'std::vec::Vec::try_reserve')
def _(I, st, a, c):
    return [(st, ok(UNIT)), (st.copy(), err(('reserve_error',)))]


@model('std::vec::Vec::clear')
def _(I, st, a, c):
    I.store(st, a[0], ('seq', ()))
    return [(st, UNIT)]


@model('std::vec::Vec::push')
def _(I, st, a, c):
    v = seq_at(I, st, a[0])
    I.store(st, a[0], ('seq', v[1] + (('one', a[1]),)))
    return [(st, UNIT)]


@model('std::vec::Vec::pop')
def _(I, st, a, c):
    v = seq_at(I, st, a[0])
    n = I.seq_len(v)
    out = []
    for s, t in st.fork(lt(0, n)):
        if not t:
            out.append((s, NONE))
            continue
        for s2, x, y in I.split(s, v, sub(n, 1)):
            s2 = s2.copy()
            e = I.seq_get(s2, v, sub(n, 1))
            I.store(s2, a[0], ('seq', x))
            out.append((s2, some(e)))
    return out


def bounds(I, st, cond, c):
    out = []
    for s, t in st.fork(cond):
        if t:
            out.append(s)
        else:
            I.panics.append((s, 'index', c.fr.fn, c.line))
    return out


@model('std::vec::Vec::remove')
def _(I, st, a, c):
    v = seq_at(I, st, a[0])
    n = I.seq_len(v)
    out = []
    for s in bounds(I, st, lt(a[1], n), c):
        for s2, x, y in I.split(s, v, a[1]):
            for s3, y1, y2 in I.split(s2, ('seq', y), 1):
                s3 = s3.copy()
                e = I.seq_get(s3, ('seq', y), 0)
                I.store(s3, a[0], ('seq', I.clean(s3, x + y2)))
                out.append((s3, e))
    return out


@model('std::vec::Vec::swap_remove')
def _(I, st, a, c):
    v = seq_at(I, st, a[0])
    n = I.seq_len(v)
    out = []
    for s in bounds(I, st, lt(a[1], n), c):
        e = I.seq_get(s, v, a[1])
        last = I.seq_get(s, v, sub(n, 1))
        for s2, t in s.fork(eq(a[1], sub(n, 1))):
            if t:
                for s3, x, y in I.split(s2, v, sub(n, 1)):
                    s3 = s3.copy()
                    I.store(s3, a[0], ('seq', x))
                    out.append((s3, e))
                continue
            for s3, x, y in I.split(s2, v, a[1]):
                for s4, y1, y2 in I.split(s3, ('seq', y), 1):
                    ny = sub(sub(n, a[1]), 2)
                    for s5, z1, z2 in I.split(s4, ('seq', y2), ny):
                        s5 = s5.copy()
                        I.store(s5, a[0], ('seq', I.clean(s5, x + (('one', last),) + z1)))
                        out.append((s5, e))
    return out


@model('std::vec::Vec::insert')
def _(I, st, a, c):
    v = seq_at(I, st, a[0])
    n = I.seq_len(v)
    out = []
    for s in bounds(I, st, le(a[1], n), c):
        for s2, x, y in I.split(s, v, a[1]):
            s2 = s2.copy()
            I.store(s2, a[0], ('seq', x + (('one', a[2]),) + y))
            out.append((s2, UNIT))
    return out


@model('std::vec::Vec::truncate')
def _(I, st, a, c):
    v = seq_at(I, st, a[0])
    n = I.seq_len(v)
    out = []
    for s, t in st.fork(lt(a[1], n)):
        if not t:
            out.append((s, UNIT))
            continue
        for s2, x, y in I.split(s, v, a[1]):
            s2 = s2.copy()
            I.store(s2, a[0], ('seq', x))
            out.append((s2, UNIT))
    return out


@model('std::vec::Vec::split_off')
def _(I, st, a, c):
    v = seq_at(I, st, a[0])
    n = I.seq_len(v)
    out = []
    for s in bounds(I, st, le(a[1], n), c):
        for s2, x, y in I.split(s, v, a[1]):
            s2 = s2.copy()
            I.store(s2, a[0], ('seq', x))
            out.append((s2, ('seq', y)))
    return out


def range_of(I, st, r, n):
    """[(lo, hi)] of a range value against length n."""
    if is_agg(r, 'std::ops::Range'):
        return fget(r, 'start'), fget(r, 'end')
    if is_agg(r, 'std::ops::RangeInclusive'):
        return fget(r, 'start'), add(fget(r, 'end'), 1)
    if is_agg(r, 'std::ops::RangeFrom'):
        return fget(r, 'start'), n
    if is_agg(r, 'std::ops::RangeTo'):
        return 0, fget(r, 'end')
    if is_agg(r, 'std::ops::RangeToInclusive'):
        return 0, add(fget(r, 'end'), 1)
    if is_agg(r, 'std::ops::RangeFull'):
        return 0, n
    return None


@model('std::ops::RangeInclusive::new')
def _(I, st, a, c):
    return [(st, agg('std::ops::RangeInclusive', 0, 'RangeInclusive',
                     [('start', a[0]), ('end', a[1])]))]


BOUND = 'std::ops::Bound'


def bound_model(end):
    def f(I, st, a, c):
        r = deref(I, st, a[0])
        name = ('end' if end else 'start')

        def ref(s, v):
            I.uid += 1
            s.mem[('T', I.uid)] = v
            return ('ref', ('T', I.uid), ())
        inc = lambda s, v: agg(BOUND, 0, 'Included', [('0', ref(s, v))])
        exc = lambda s, v: agg(BOUND, 1, 'Excluded', [('0', ref(s, v))])
        unb = agg(BOUND, 2, 'Unbounded', [])
        if is_agg(r):
            k = r[1].rsplit('::', 1)[-1]
            if k == 'RangeFull' or (end and k == 'RangeFrom') or (not end and k in ('RangeTo', 'RangeToInclusive')):
                return [(st, unb)]
            if k in ('Range', 'RangeFrom', 'RangeTo', 'RangeInclusive', 'RangeToInclusive'):
                v = fget(r, name)
                if end:
                    return [(st, inc(st, v) if 'Inclusive' in k else exc(st, v))]
                return [(st, inc(st, v))]
            return NotImplemented
        out = []
        for i, mk_ in ((0, inc), (1, exc), (2, None)):
            key = ('bound', name, r)
            if st.variants.get(key, i) != i:
                continue
            s = st.copy()
            s.variants[key] = i
            out.append((s, mk_(s, ('int', name)) if mk_ else unb))
        return out
    return f


M['std::ops::RangeBounds::start_bound'] = bound_model(False)
M['std::ops::RangeBounds::end_bound'] = bound_model(True)


@model('std::vec::Vec::drain')
def _(I, st, a, c):
    v = seq_at(I, st, a[0])
    n = I.seq_len(v)
    r = range_of(I, st, a[1], n)
    if r is None:
        raise Undecided('drain range')
    out = []
    for s in bounds(I, st, le(r[0], r[1]), c):
        for s1 in bounds(I, s, le(r[1], n), c):
            for s2, x, y in I.split(s1, v, r[0]):
                for s3, y1, y2 in I.split(s2, ('seq', y), sub(r[1], r[0])):
                    s3 = s3.copy()
                    I.store(s3, a[0], ('seq', I.clean(s3, x + y2)))
                    out.append((s3, ('drain', ('seq', y1))))
    return out


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index',
       '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
       'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index')
def _(I, st, a, c):
    n = I.ref_len(st, a[0])
    r = range_of(I, st, a[1], n)
    if r is None:
        if is_agg(a[1]):
            return NotImplemented
        return [(s, mkidx(I, s, a[0], a[1])) for s in bounds(I, st, lt(a[1], n), c)]
    out = []
    for s in bounds(I, st, le(r[0], r[1]), c):
        for s2 in bounds(I, s, le(r[1], n), c):
            out.append((s2, mkrng(I, s2, a[0], r[0], r[1])))
    return out


def mkidx(I, st, ref, i):
    if is_ref(ref):
        return ('ref', ref[1], I.path_idx(ref[2], i))
    return ('ref', ('D', ref), (('idx', i),))


def mkrng(I, st, ref, lo, hi):
    if is_ref(ref):
        return ('ref', ref[1], I.path_rng(ref[2], lo, hi))
    return ('ref', ('D', ref), (('rng', lo, hi),))


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _(I, st, a, c):
    n = I.ref_len(st, a[0])
    r = range_of(I, st, a[1], n)
    if r is None:
        if is_agg(a[1]) or (isinstance(a[1], tuple) and a[1] and a[1][0] in ('agg',)):
            return NotImplemented
        out = []
        for s, t in st.fork(lt(a[1], n)):
            out.append((s, some(mkidx(I, s, a[0], a[1])) if t else NONE))
        return out
    out = []
    for s, t in st.fork(le(r[0], r[1])):
        if not t:
            out.append((s, NONE))
            continue
        for s2, t2 in s.fork(le(r[1], n)):
            out.append((s2, some(mkrng(I, s2, a[0], r[0], r[1])) if t2 else NONE))
    return out


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def _(I, st, a, c):
    n = I.ref_len(st, a[0])
    return [(s, some(mkidx(I, s, a[0], 0)) if t else NONE) for s, t in st.fork(lt(0, n))]


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def _(I, st, a, c):
    n = I.ref_len(st, a[0])
    return [(s, some(mkidx(I, s, a[0], sub(n, 1))) if t else NONE) for s, t in st.fork(lt(0, n))]


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def _(I, st, a, c):
    n = I.ref_len(st, a[0])
    return [(s, tup(mkrng(I, s, a[0], 0, a[1]), mkrng(I, s, a[0], a[1], n)))
            for s in bounds(I, st, le(a[1], n), c)]


def rotate(left):
    def f(I, st, a, c):
        v = I.load(st, a[0])
        if not (isinstance(v, tuple) and v[0] == 'seq'):
            raise Undecided('rotate')
        n = I.seq_len(v)
        out = []
        for s in bounds(I, st, le(a[1], n), c):
            at = a[1] if left else sub(n, a[1])
            for s2, x, y in I.split(s, v, at):
                s2 = s2.copy()
                I.store(s2, a[0], ('seq', I.clean(s2, y + x)))
                out.append((s2, UNIT))
        return out
    return f


M['core::slice::<impl [T]>::rotate_left'] = rotate(True)
M['core::slice::<impl [T]>::rotate_right'] = rotate(False)


@model('core::slice::<impl [T]>::swap')
def _(I, st, a, c):
    n = I.ref_len(st, a[0])
    out = []
    for s in bounds(I, st, lt(a[1], n), c):
        for s1 in bounds(I, s, lt(a[2], n), c):
            for s2, t in s1.fork(eq(a[1], a[2])):
                if t:
                    out.append((s2, UNIT))
                    continue
                for s3, _t in s2.fork(lt(a[1], a[2])):
                    s3 = s3.copy()
                    r1, r2 = mkidx(I, s3, a[0], a[1]), mkidx(I, s3, a[0], a[2])
                    x, y = I.load(s3, r1), I.load(s3, r2)
                    I.store(s3, r1, y)
                    I.store(s3, r2, x)
                    out.append((s3, UNIT))
    return out


@model('core::slice::<impl [T]>::reverse')
def _(I, st, a, c):
    v = I.load(st, a[0])
    if not (isinstance(v, tuple) and v[0] == 'seq'):
        raise Undecided('reverse')
    segs = []
    for s in reversed(v[1]):
        if s[0] == 'sub':
            segs.append(('rsub',) + s[1:])
        elif s[0] == 'rsub':
            segs.append(('sub',) + s[1:])
        else:
            segs.append(s)
    I.store(st, a[0], ('seq', tuple(segs)))
    return [(st, UNIT)]


def fresh_seq(I, name, n):
    b = I.fresh(name)
    return b, ('seq', (('sub', b, 0, n),))


@model('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def _(I, st, a, c):
    """Order-preserving filter: a fresh base of at most the old length."""
    v = seq_at(I, st, a[0])
    n = I.seq_len(v)
    e = I.fresh('el')
    # analyse the predicate on a generic element
    I.uid += 1
    slot = ('T', I.uid)
    s0 = st.copy()
    if len(v[1]) == 1 and v[1][0][0] == 'sub':
        i = I.fresh('i')
        el = ('elem', v[1][0][1], i)
    else:
        el = e
    s0.mem[slot] = el
    kept = []
    for s, r in I.call_value(s0, c, a[1], [('ref', slot, ())]):
        kept.append((r, s.mem.get(slot), s.events[len(st.events):]))
    base = ('filtered', v, I.fresh('f'))
    m = ('len', base)
    st = st.copy()
    st.ord.assume(le(m, n))
    st.trace.append(('filter', v, base, el, kept))
    I.store(st, a[0], ('seq', (('sub', base, 0, m),)))
    return [(st, UNIT)]


@model('core::slice::<impl [T]>::iter', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       'std::vec::<impl std::iter::IntoIterator for &\'a std::vec::Vec<T, A>>::into_iter',
       '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def _(I, st, a, c):
    return [(st, ('it', 'slice', a[0]))]


@model('core::slice::<impl [T]>::iter_mut',
       'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter')
def _(I, st, a, c):
    return [(st, ('it', 'slicemut', a[0]))]


@model('std::iter::Iterator::zip')
def _(I, st, a, c):
    x, y = as_iter(a[0]), as_iter(a[1])
    if is_ref(y) or not (isinstance(y, tuple) and y[0] == 'it'):
        y = ('it', 'slice', y)
    return [(st, ('it', 'zip', x, y))]


@model('std::iter::Iterator::rev')
def _(I, st, a, c):
    return [(st, ('it', 'rev', as_iter(a[0])))]


def part_of(kind):
    def f(I, st, a, c):
        x = as_iter(a[0])
        if isinstance(x, tuple) and x and x[0] == 'it':
            return [(st, ('it', kind, x, a[1]))]
        return NotImplemented
    return f


M['std::iter::Iterator::skip'] = part_of('skip')
M['std::iter::Iterator::take'] = part_of('take')


@model('std::iter::Iterator::enumerate')
def _(I, st, a, c):
    return [(st, ('it', 'enum', as_iter(a[0]), 0))]


@model('std::iter::Iterator::map')
def _(I, st, a, c):
    x = as_iter(a[0])
    if isinstance(x, tuple) and x and x[0] == 'it':
        return [(st, ('it', 'map', x, a[1]))]
    return NotImplemented


@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def _(I, st, a, c):
    return [(st, ('it', 'copied', as_iter(a[0])))]


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def _(I, st, a, c):
    if isinstance(a[0], tuple) and a[0] and a[0][0] == 'seq':
        return [(st, ('it', 'vals', a[0]))]
    return [(st, ('intoiter', a[0]))]


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def _(I, st, a, c):
    it = as_iter(a[0])
    if not (isinstance(it, tuple) and it and it[0] == 'it'):
        return NotImplemented
    if c.dest_ty is None or not c.dest_ty['s'].startswith(('std::vec::Vec<', 'std::boxed::Box<[')):
        return NotImplemented
    n = loops.it_len(I, st, it)
    k = I.fresh('k')
    s = st.copy()
    if n is None or not (s.ord.assume(le(0, k)) and s.ord.assume(lt(k, n))):
        return [(st, ('seq', ()))]
    r = loops.it_elem(I, s, it, k, c)
    if len(r) != 1:
        raise Undecided('collect')
    base = ('mapped', k, r[0][1])
    st.ord.assume(eq(('len', base), n))
    return [(st, ('seq', (('sub', base, 0, n),)))]


@model('std::vec::Vec::into_boxed_slice', 'std::boxed::Box::into_raw', 'std::boxed::Box::from_raw',
       'core::slice::<impl [T]>::as_mut_ptr', 'core::slice::<impl [T]>::as_ptr', 'std::slice::<impl [T]>::into_vec')
def _(I, st, a, c):
    return [(st, a[0])]


for _n in ('<std::iter::Zip<A, B> as std::iter::Iterator>::next',
           '<std::iter::Rev<I> as std::iter::Iterator>::next',
           '<std::iter::Enumerate<I> as std::iter::Iterator>::next',
           '<std::iter::Map<B, I, F> as std::iter::Iterator>::next',
           '<std::iter::Skip<I> as std::iter::Iterator>::next',
           '<std::iter::Take<I> as std::iter::Iterator>::next',
           "<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
           "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
           '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next',
           'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next',
           'std::iter::range::<impl std::iter::Iterator for std::ops::RangeFrom<A>>::next',
           'std::iter::Iterator::next'):
    M[_n] = loops.next_model
for _n in ('any', 'all', 'position', 'find'):
    for _t in ("<std::slice::Iter<'a, T> as std::iter::Iterator>", "<std::slice::IterMut<'a, T> as std::iter::Iterator>",
               'std::iter::Iterator'):
        M[_t + '::' + _n] = loops.search_model(_n)


# ---------------------------------------------------------------- index table (rubymap side)
HT = 'hashbrown::HashTable::'
TABLE = {}


def tmodel(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


@tmodel(HT + 'new')
def _(I, st, a, c):
    return [(st, ('tab', I.fresh('t'), ()))]


@tmodel(HT + 'with_capacity')
def _(I, st, a, c):
    t = I.fresh('t')
    s = st.assume(le(a[0], ('tcap', t)))
    return [(s or st, ('tab', t, ()))]


@tmodel(HT + 'len')
def _(I, st, a, c):
    return [(st, I.tab_len(I.load(st, a[0])))]


@tmodel(HT + 'is_empty')
def _(I, st, a, c):
    return [(st, eq(I.tab_len(I.load(st, a[0])), 0))]


@tmodel(HT + 'capacity')
def _(I, st, a, c):
    v = I.load(st, a[0])
    n = I.tab_len(v)
    cap = ('tcap', v[1])
    s = st.assume(le(n, cap))
    return [(s or st, cap)]


@tmodel(HT + 'clear')
def _(I, st, a, c):
    v = I.load(st, a[0])
    if v[0] == 'gtab':
        raise Undecided('clear in loop')
    st = st.assume(le(I.tab_len(v), ('tcap', v[1]))) or st
    I.store(st, a[0], ('tab', v[1], ()))
    return [(st, UNIT)]


def check_hasher(I, st, ref, hasher, c):
    """The hash recomputed for each slot must be the hash the slot is filed under."""
    v = I.load(st, ref)
    if v[0] != 'tab':
        return []
    issues = []
    for p in v[2]:
        s = st.copy()
        if p[0] == 'pc' and not all(s.ord.assume(x) for x in p[2]):
            continue
        val = p[2] if p[0] == 'one' else p[3]
        want = p[1] if p[0] == 'one' else p[4]
        I.uid += 1
        slot = ('T', I.uid)
        s.mem[slot] = val
        np = len(I.panics)
        try:
            res = I.call_value(s, c, hasher, [('ref', slot, ())])
        except Undecided:
            continue
        bad = [1 for s2, h in res if not s2.ord.same(norm_hash(h), norm_hash(want))]
        if bad or (not res and len(I.panics) > np):
            issues.append(('wrong-rehash', 'growing the index would re-file a slot under the hash of '
                           'another entry', c.fr.fn['fn']))
        del I.panics[np:]
    return issues


def norm_hash(h):
    """A hash through `.get()` or as HashValue is the same hash."""
    while isinstance(h, tuple) and h and (h[0] == 'fld' and h[2] == '0' or h[0] == 'cast'):
        h = h[1] if h[0] == 'fld' else h[2]
    return h


def regrown(I, st, ref, room):
    """The table at `ref` now has some other capacity of at least `room`."""
    v = I.load(st, ref)
    if v[0] != 'tab':
        return st
    t = I.fresh('t')
    st = st.assume(le(room, ('tcap', t))) or st
    I.store(st, ref, ('tab', t, v[2]))
    return st


@tmodel(HT + 'reserve')
def _(I, st, a, c):
    st.issues += check_hasher(I, st, a[0], a[2], c)
    v = I.load(st, a[0])
    return [(regrown(I, st, a[0], add(I.tab_len(v), a[1])) if v[0] == 'tab' else st, UNIT)]


@tmodel(HT + 'shrink_to', HT + 'shrink_to_fit')
def _(I, st, a, c):
    st.issues += check_hasher(I, st, a[0], a[-1], c)
    v = I.load(st, a[0])
    return [(regrown(I, st, a[0], I.tab_len(v)) if v[0] == 'tab' else st, UNIT)]


@tmodel(HT + 'insert_unique')
def _(I, st, a, c):
    ref, h, val, hasher = a
    v = I.load(st, ref)
    h = norm_hash(h)
    if v[0] == 'gtab':
        I.store(st, ref, ('gtab', v[1], v[2] + (('ins', h, val),)))
    elif v[0] == 'tab':
        st.issues += check_hasher(I, st, ref, hasher, c)
        I.store(st, ref, ('tab', v[1], v[2] + (('one', h, val),)))
    else:
        raise Undecided('insert into unknown table')
    return [(st, occ(ref, val))]


OCC = 'hashbrown::hash_table::OccupiedEntry'
VAC = 'hashbrown::hash_table::VacantEntry'
ABS = 'hashbrown::hash_table::AbsentEntry'
ENT = 'hashbrown::hash_table::Entry'


def occ(ref, val):
    return agg(OCC, 0, 'OccupiedEntry', [('tab', ref), ('val', val)])


def find(I, st, ref, h, eqf, extra, c, fallible=True):
    """[(state, 'err', payload) | (state, 'none', None) | (state, 'found', slot value)]"""
    tab = I.load(st, ref)
    h = norm_hash(h)
    # does the predicate look at the slot value only?
    x = I.fresh('probe')
    s0 = st.copy()
    I.uid += 1
    slot = ('T', I.uid)
    s0.mem[slot] = x
    byval = None
    np = len(I.panics)
    try:
        res = I.call_value(s0, c, eqf, [('ref', slot, ())] + extra)
        if len(res) == 1 and len(res[0][0].events) == len(st.events):
            r = res[0][1]
            if fallible and is_agg(r, RES) and r[3] == 'Ok':
                r = r[4][0][1]
            elif fallible:
                r = None
            if isinstance(r, tuple) and r[0] == 'eq0':
                cc, d = lin(r[1])
                q = d.pop(x, 0)
                if q in (1, -1) and not any(mentions(t, x) for t in d):
                    byval = scale(mk(cc, d), -q)
    except Undecided:
        pass
    del I.panics[np:]
    out = []
    if byval is not None:
        if tab[0] == 'gtab':
            s = st.copy()
            I.store(s, ref, ('gtab', tab[1], tab[2] + (('find', byval, h),)))
            return [(s, 'found', byval)]
        if tab[0] != 'tab':
            raise Undecided('search of unknown table')
        for s, i, inv in I.members(st, tab, byval):
            if i is None:
                s = s.copy()
                s.trace.append(('index-miss', byval, c.fr.fn['fn'], c.line))
                out.append((s, 'none', None))
                continue
            own = norm_hash(I.pc_hash(tab[2][i], inv))
            if s.ord.same(own, h):
                out.append((s, 'found', byval))
            else:
                s = s.copy()
                s.issues.append(('wrong-hash', 'index slot is looked up with the hash of another '
                                 'entry', c.fr.fn['fn']))
                out.append((s, 'none', None))
        return out
    if tab[0] != 'tab':
        raise Undecided('key search of a table under construction')
    s = st.copy()
    s.trace.append(('search', h, 'none', tab))
    out.append((s, 'none', None))
    for p in tab[2]:
        s = st.copy()
        if p[0] == 'pc':
            i = I.fresh('i')
            if not all(s.ord.assume(subst(cd, {V: i})) for cd in p[2]):
                continue
            val = subst(p[3], {V: i})
            own = subst(p[4], {V: i})
        else:
            val, own = p[2], p[1]
        I.uid += 1
        slot = ('T', I.uid)
        s.mem[slot] = val
        ne = len(s.events)
        for s2, r in I.call_value(s, c, eqf, [('ref', slot, ())] + extra):
            cases = result(I, s2, r) if fallible else [(s2, 'Ok', r)]
            for s3, n, pay in cases:
                s3 = s3.copy()
                if n == 'Err':
                    s3.trace.append(('search', h, 'err'))
                    out.append((s3, 'err', pay))
                    continue
                for s4, t in s3.fork(pay):
                    if not t and any(e['kind'] == 'user-err' for e in s4.events[ne:]):
                        s4 = s4.copy()      # the probe carries on past a failed comparison
                        s4.trace.append(('search', h, 'none', tab))
                        out.append((s4, 'none', None))
                    if t:
                        s4 = s4.copy()
                        s4.trace.append(('match', own, h, val, tuple(
                            (e['name'], e['args'], e['ret']) for e in s4.events[ne:])))
                        out.append((s4, 'found', val))
    return out


def slotref(ref, val):
    return ('ref', ref[1], ref[2] + (('slot', val),))


@tmodel(HT + 'find', HT + 'find_mut')
def _(I, st, a, c):
    ref, h, eqf, e, g = a
    out = []
    for s, k, v in find(I, st, ref, h, eqf, [e, g], c):
        if k == 'err':
            out.append((s, err(v)))
        elif k == 'none':
            out.append((s, ok(NONE)))
        else:
            out.append((s, ok(some(slotref(ref, v)))))
    return out


@tmodel(HT + 'find_entry')
def _(I, st, a, c):
    ref, h, eqf, e, g = a
    out = []
    for s, k, v in find(I, st, ref, h, eqf, [e, g], c):
        if k == 'err':
            out.append((s, err(v)))
        elif k == 'none':
            out.append((s, ok(err(agg(ABS, 0, 'AbsentEntry', [('tab', ref)])))))
        else:
            out.append((s, ok(ok(occ(ref, v)))))
    return out


def entry_model(fallible):
    def f(I, st, a, c):
        if fallible:
            ref, h, eqf, hasher, e, g = a
            extra = [e, g]
        else:
            ref, h, eqf, hasher = a
            extra = []
        st.issues += check_hasher(I, st, ref, hasher, c)
        out = []
        for s, k, v in find(I, st, ref, h, eqf, extra, c, fallible):
            if k == 'err':
                out.append((s, err(v)))
                continue
            if k == 'none':
                r = agg(ENT, 1, 'Vacant', [('0', agg(VAC, 0, 'VacantEntry',
                                                     [('tab', ref), ('hash', norm_hash(h))]))])
            else:
                r = agg(ENT, 0, 'Occupied', [('0', occ(ref, v))])
            out.append((s, ok(r) if fallible else r))
        return out
    return f


TABLE[HT + 'entry'] = entry_model(True)
TABLE[HT + 'entry_sym'] = entry_model(False)


@tmodel(OCC + '::get', OCC + '::get_mut', OCC + '::into_mut')
def _(I, st, a, c):
    o = I.load(st, a[0]) if is_ref(a[0]) else a[0]
    return [(st, slotref(fget(o, 'tab'), fget(o, 'val')))]


@tmodel(OCC + '::remove')
def _(I, st, a, c):
    ref, x = fget(a[0], 'tab'), fget(a[0], 'val')
    tab = I.load(st, ref)
    if tab[0] == 'gtab':
        h = I.gtab_hash(list(tab[2]), x)
        I.store(st, ref, ('gtab', tab[1], tab[2] + (('del', x, h),)))
        return [(st, tup(x, agg(VAC, 0, 'VacantEntry', [('tab', ref), ('hash', h)])))]
    out = []
    for s, i, inv in I.members(st, tab, x):
        if i is None:
            raise Undecided('removal of an unknown slot')
        s = s.copy()
        h = norm_hash(I.pc_hash(tab[2][i], inv))
        I.store(s, ref, loops.norm_tab(s, I.tab_remove_member(tab, i, inv)))
        out.append((s, tup(x, agg(VAC, 0, 'VacantEntry', [('tab', ref), ('hash', h)]))))
    return out


@tmodel(VAC + '::insert')
def _(I, st, a, c):
    ref, h = fget(a[0], 'tab'), fget(a[0], 'hash')
    tab = I.load(st, ref)
    if tab[0] != 'tab':
        raise Undecided('vacant insert')
    I.store(st, ref, ('tab', tab[1], tab[2] + (('one', h, a[1]),)))
    return [(st, occ(ref, a[1]))]


@tmodel(OCC + '::into_table', VAC + '::into_table', ABS + '::into_table')
def _(I, st, a, c):
    return [(st, fget(a[0], 'tab'))]


@tmodel(HT + 'retain')
def _(I, st, a, c):
    return loops.retain(I, st, a[0], a[1], c)


@tmodel(HT + 'iter_mut', "<&'a mut hashbrown::HashTable<T, E, G, R> as std::iter::IntoIterator>::into_iter",
        "hashbrown::table::<impl std::iter::IntoIterator for &'a mut hashbrown::HashTable<T, E, G, R>>::into_iter")
def _(I, st, a, c):
    return [(st, ('it', 'tabmut', a[0]))]


for _n in ("<hashbrown::hash_table::IterMut<'a, T> as std::iter::Iterator>::next",):
    TABLE[_n] = loops.next_model


@tmodel('<hashbrown::HashTable<T, E, G, R> as std::clone::Clone>::clone_from')
def _(I, st, a, c):
    I.store(st, a[0], I.load(st, a[1]))
    return [(st, UNIT)]


@tmodel('<hashbrown::HashTable<T, E, G, R> as std::clone::Clone>::clone')
def _(I, st, a, c):
    return [(st, I.load(st, a[0]))]


@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone_from', 'std::clone::Clone::clone_from')
def _(I, st, a, c):
    I.store(st, a[0], I.load(st, a[1]))
    return [(st, UNIT)]


@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def _(I, st, a, c):
    return [(st, I.load(st, a[0]))]


# ---------------------------------------------------------------- user code (hash, eql)
def eqv(x, y):
    """Verdict of user equality on two values (either argument order)."""
    return ('eqv',) + tuple(sorted((x, y), key=repr))


def deref(I, st, v):
    n = 0
    while is_ref(v) and n < 6:
        v, n = I.load(st, v), n + 1
    return v


@model('std::hash::BuildHasher::build_hasher')
def _(I, st, a, c):
    return [(st, ('hasher', deref(I, st, a[0])))]


@model('std::hash::Hasher::finish')
def _(I, st, a, c):
    return [(st, ('finish', deref(I, st, a[0])))]


def hash_model(fallible):
    def f(I, st, a, c):
        key = deref(I, st, a[0])
        out = []
        s = st.copy()
        h = I.load(s, a[1])
        I.event(s, c.fr, 'hash', (key, h), c.line, None, 'hash')
        if fallible:
            s2 = s.copy()
            p = ('hasherr', key)
            I.event(s2, c.fr, 'hash', (key,), c.line, p, 'user-err')
            out.append((s2, err(p)))
        I.store(s, a[1], ('hashed', h, key))
        out.append((s, ok(UNIT) if fallible else UNIT))
        return out
    return f


M['ruby_traits::RubyHash::ruby_hash'] = hash_model(True)
M['ruby_traits::RubySymHash::ruby_hash'] = hash_model(False)


def eq_model(fallible):
    def f(I, st, a, c):
        x, y = deref(I, st, a[0]), deref(I, st, a[1])
        s = st.copy()
        r = eqv(x, y)
        I.event(s, c.fr, 'eq', (x, y), c.line, r, 'eq')
        if not fallible:
            return [(s, r)]
        s2 = s.copy()
        p = ('eqerr',) + r[1:]
        I.event(s2, c.fr, 'eq', (x, y), c.line, p, 'user-err')
        return [(s, ok(r)), (s2, err(p))]
    return f


M['hashbrown::Equivalent::equivalent'] = M['ruby_traits::RubyEql::eql'] = eq_model(True)
M['hashbrown::RubyEql::eql'] = eq_model(True)
M['ruby_traits::SymEquivalent::equivalent'] = eq_model(False)
M['ruby_traits::RubySymEql::eql'] = eq_model(False)


@model('std::convert::From::from')
def _(I, st, a, c):
    return [(st, ('conv', a[0]))]


@model('std::borrow::Borrow::borrow')
def _(I, st, a, c):
    return [(st, a[0])]


@model('std::clone::Clone::clone')
def _(I, st, a, c):
    return [(st, I.load(st, a[0]))]


def generic_calls(I, st, c, fv, vals):
    """Run a callback on generic elements: [(state, result)] and the element values after."""
    s = st.copy()
    refs = []
    for v in vals:
        I.uid += 1
        s.mem[('T', I.uid)] = v
        refs.append(('ref', ('T', I.uid), ()))
    np = len(I.panics)
    out = []
    for s2, r in I.call_value(s, c, fv, refs):
        out.append((s2, r, [s2.mem.get(x[1]) for x in refs]))
    return out


def permute(I, st, a, c):
    v = I.load(st, a[0])
    if not (isinstance(v, tuple) and v[0] == 'seq'):
        raise Undecided('sort')
    n = I.seq_len(v)
    base = ('perm', v, I.fresh('p'))
    st.ord.assume(eq(('len', base), n))
    els = [('gen', 'a'), ('gen', 'b')]
    name = c.path.rsplit('::', 1)[-1]
    if name.endswith('key'):
        els = els[:1]
    cmp_ = [(r, els) for s2, r, _ in generic_calls(I, st, c, a[1], els)] if len(a) > 1 else None
    st.trace.append(('permute', v, base, name, cmp_))
    I.store(st, a[0], ('seq', (('sub', base, 0, n),)))
    return [(st, UNIT)]


for _n in ('std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by',
           'std::slice::<impl [T]>::sort_by_cached_key', 'std::slice::<impl [T]>::sort_by_key',
           'core::slice::<impl [T]>::sort_unstable_by_key', 'std::slice::<impl [T]>::sort'):
    M[_n] = permute


def position_result(name):
    """Searches whose answer the analysis does not interpret (sorted order)."""
    def f(I, st, a, c):
        n = I.ref_len(st, a[0])
        t = (name, I.load(st, a[0]) if is_ref(a[0]) else a[0],
             tuple(r for _, r, _ in generic_calls(I, st, c, a[1], [('gen', 'a')])))
        s1, s2 = st.copy(), st.copy()
        s1.trace.append(('bsearch', 'ok', ('okpos', t)))
        s2.trace.append(('bsearch', 'err', ('errpos', t)))
        s1.ord.assume(lt(('okpos', t), n))
        s2.ord.assume(le(('errpos', t), n))
        return [(s1, ok(('okpos', t))), (s2, err(('errpos', t)))]
    return f


M['core::slice::<impl [T]>::binary_search_by'] = position_result('binary_search_by')


@model('core::slice::<impl [T]>::partition_point')
def _(I, st, a, c):
    n = I.ref_len(st, a[0])
    t = ('partition', I.load(st, a[0]) if is_ref(a[0]) else a[0],
         tuple(r for _, r, _ in generic_calls(I, st, c, a[1], [('gen', 'a')])))
    st.ord.assume(le(t, n))
    return [(st, t)]


@model('std::mem::size_of')
def _(I, st, a, c):
    t = ('sizeof', c.callee['args'][0] if c.callee.get('args') else '?')
    st.ord.assume(lt(0, t))
    return [(st, t)]


for _n in ('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug',
           'std::fmt::Arguments::new', 'std::fmt::Arguments::from_str',
           'std::fmt::Arguments::from_str_nonconst'):
    M[_n] = lambda I, st, a, c: [(st, ('fmt',))]
