"""Models of the primitives below the hash table: pointers, groups, tags, buckets."""
from terms import *
from absint import Undecided
from raw import *
import models

RM = {}
KEEP = ('std::option::', 'std::result::', '<std::option', '<std::result', 'std::mem::replace', 'std::mem::swap',
        'std::mem::take', 'std::convert::identity', '<T as std::convert::From<T>>::from', 'core::num::',
        'std::cmp::impls', 'std::clone::impls')
for k, v in models.M.items():
    if k.startswith(KEEP):
        RM[k] = v


def model(*names):
    def d(f):
        for n in names:
            RM[n] = f
        return f
    return d


def ident(I, st, a, c):
    return [(st, a[0])]


for n in ('std::ptr::NonNull::as_ptr', 'std::ptr::NonNull::cast', 'std::ptr::NonNull::new_unchecked',
          'std::ptr::const_ptr::<impl *const T>::cast', 'std::ptr::mut_ptr::<impl *mut T>::cast',
          'std::ptr::const_ptr::<impl *const T>::cast_mut', 'std::ptr::mut_ptr::<impl *mut T>::cast_const',
          '<std::ptr::NonNull<T> as std::convert::From<&mut T>>::from', 'std::mem::ManuallyDrop::new',
          'std::ptr::NonNull::as_ref', 'std::ptr::NonNull::as_mut',
          '<std::mem::ManuallyDrop<T> as std::ops::Deref>::deref',
          '<std::mem::ManuallyDrop<T> as std::ops::DerefMut>::deref_mut',
          'util::likely', 'util::unlikely', 'control::bitmask::BitMask::into_iter',
          '<control::bitmask::BitMask as std::iter::IntoIterator>::into_iter',
          '<I as std::iter::IntoIterator>::into_iter', 'std::hint::likely', 'std::hint::unlikely', 'std::intrinsics::likely', 'std::intrinsics::unlikely'):
    RM[n] = ident


@model('std::mem::ManuallyDrop::into_inner', 'std::ptr::read')
def _(I, st, a, c):
    v = a[0]
    if isinstance(v, tuple) and v[0] == 'ref':
        return [(st, I.load(st, v))]
    if isinstance(v, tuple) and v[0] == 'eptr':
        st.eff.append(('el', 'read', v[1], v[2], None))
        return [(st, ('item', v[1], v[2]))]
    return [(st, v)]


@model('std::ptr::NonNull::new')
def _(I, st, a, c):
    if is_pa(a[0]):
        return [(st, some(a[0]))]
    return [(st, some(a[0])), (st.copy(), NONE)]


@model('std::mem::forget')
def _(I, st, a, c):
    return [(st, UNIT)]


@model('std::convert::num::<impl std::convert::From<bool> for usize>::from')
def _(I, st, a, c):
    return [(s, 1 if t else 0) for s, t in st.fork(a[0])]


@model('<std::ptr::NonNull<T> as std::clone::Clone>::clone')
def _(I, st, a, c):
    return [(st, I.load(st, a[0]))]


def padd(sign):
    def f(I, st, a, c):
        p, n = a[0], a[1]
        if is_pa(p):
            return [(st, ('pa', p[1], add(p[2], n, sign)))]
        return [(st, ('pa', p, n if sign > 0 else scale(n, -1)))]
    return f


for q in ('const_ptr::<impl *const T>', 'mut_ptr::<impl *mut T>'):
    RM['std::ptr::%s::add' % q] = padd(1)
    RM['std::ptr::%s::sub' % q] = padd(-1)
    RM['std::ptr::%s::wrapping_add' % q] = padd(1)


@model('std::ptr::const_ptr::<impl *const T>::offset_from', 'raw::offset_from')
def _(I, st, a, c):
    if is_pa(a[0]) and is_pa(a[1]) and a[0][1] == a[1][1]:
        return [(st, sub(a[0][2], a[1][2]))]
    return NotImplemented


# ---------------------------------------------------------------- arithmetic
@model('core::num::<impl usize>::wrapping_sub')
def _(I, st, a, c):
    return [(st, sub(a[0], a[1]))]


@model('core::num::<impl usize>::wrapping_add')
def _(I, st, a, c):
    I.unchecked(st, 'Add', add(a[0], a[1]))
    return [(st, add(a[0], a[1]))]


@model('core::num::<impl usize>::wrapping_mul')
def _(I, st, a, c):
    return [(st, I.binop(st, 'Mul', a[0], a[1]))]


@model('core::num::<impl usize>::checked_add', 'core::num::<impl usize>::checked_mul',
       'core::num::<impl usize>::checked_sub')
def _(I, st, a, c):
    k = c.path.rsplit('_', 1)[-1]
    I.checked = True
    r = I.binop(st, {'add': 'Add', 'mul': 'Mul', 'sub': 'Sub'}[k], a[0], a[1])
    I.checked = False
    o = ('fact', 'overflow', k, a[0], a[1])
    s1, s2 = st.copy(), st.copy()
    out = []
    if s1.ord.assume(neg(o)) and s1.ord.assume(le(0, r) if k == 'sub' else le(r, 2 ** 64 - 1)):
        out.append((s1, some(r)))
    if s2.ord.assume(o) and (k != 'sub' or s2.ord.assume(lt(r, 0))):
        out.append((s2, NONE))
    return out


@model('core::num::<impl usize>::is_power_of_two')
def _(I, st, a, c):
    return [(st, ('fact', 'pow2', a[0]))]


@model('std::cmp::impls::<impl std::cmp::Ord for usize>::max', 'std::cmp::Ord::max')
def _(I, st, a, c):
    return [(s, a[1] if t else a[0]) for s, t in st.fork(le(a[0], a[1]))]


@model('std::cmp::impls::<impl std::cmp::Ord for usize>::min', 'std::cmp::Ord::min')
def _(I, st, a, c):
    return [(s, a[0] if t else a[1]) for s, t in st.fork(le(a[0], a[1]))]


# ---------------------------------------------------------------- tags and groups
RM['const:control::tag::Tag::EMPTY'] = EMPTY
RM['const:control::tag::Tag::DELETED'] = DELETED


@model('control::tag::Tag::full')
def _(I, st, a, c):
    return [(st, ('fulltag', a[0]))]


def tagtest(want):
    def f(I, st, a, c):
        t = a[0]
        while isinstance(t, tuple) and t[0] == 'ref':
            t = I.load(st, t)
        return [(s, TRUE if k in want else FALSE) for s, k in I.classify(st, t)]
    return f


RM['control::tag::Tag::is_full'] = tagtest('F')
RM['control::tag::Tag::is_special'] = tagtest('ED')
RM['control::tag::Tag::special_is_empty'] = tagtest('E')


@model('<control::tag::Tag as std::cmp::PartialEq>::eq', '<control::tag::Tag as std::cmp::PartialEq>::ne',
       'std::cmp::PartialEq::ne', 'std::cmp::PartialEq::eq')
def _(I, st, a, c):
    x, y = (I.load(st, v) if isinstance(v, tuple) and v[0] == 'ref' else
            I.root(st, ('D', v)) for v in a)
    isne = c.path.endswith('ne')
    if x in (EMPTY, DELETED, 255, 128):
        x, y = y, x
    if y in (EMPTY, DELETED, 255, 128):
        k = 'E' if y in (EMPTY, 255) else 'D'
        return [(s, TRUE if (cl == k) != isne else FALSE) for s, cl in I.classify(st, x)]
    if is_agg(x, 'std::option::Option') and is_agg(y, 'std::option::Option'):
        if x[3] != y[3] or x[3] == 'None':
            return [(st, TRUE if (x[3] == y[3]) != isne else FALSE)]
        x, y = fget(x, '0'), fget(y, '0')
    for _ in range(2):
        x, y = (I.load(st, v) if isinstance(v, tuple) and v and v[0] == 'ref' else v for v in (x, y))
    if any(isinstance(v, tuple) and v and (v[0] in ('item', 'arg') or v[0] == 'fld' and isinstance(v[1], tuple) and
                                           v[1][0] in ('item', 'arg')) for v in (x, y)):
        return [(s, neg(r) if isne else r) for s, r in I.user(st, c, 'std::cmp::PartialEq::eq', [x, y])]
    r = I.eqterm(x, y)
    return [(st, neg(r) if isne else r)]


def group_of(I, st, p):
    if is_pa(p) and p[1][0] == 'ctrlp':
        return ('grp', p[1][1], p[2], I.epoch(st, p[1][1]))
    raise Undecided('group load from an unknown pointer')


@model('control::group::sse2::Group::load')
def _(I, st, a, c):
    g = group_of(I, st, a[0])
    st.eff.append(('load', g[1], g[2], False, c.line))
    return [(st, g)]


@model('control::group::sse2::Group::load_aligned')
def _(I, st, a, c):
    g = group_of(I, st, a[0])
    st.eff.append(('load', g[1], g[2], True, c.line))
    return [(st, g)]


@model('control::group::sse2::Group::store_aligned')
def _(I, st, a, c):
    p = a[1]
    if not (is_pa(p) and p[1][0] == 'ctrlp'):
        raise Undecided('group store')
    st.eff.append(('gstore', p[1][1], p[2], a[0]))
    st.eff.append(('bulk', frozenset([p[1][1]]), I.fresh('ep')))
    return [(st, UNIT)]


@model('control::group::sse2::Group::convert_special_to_empty_and_full_to_deleted')
def _(I, st, a, c):
    return [(st, ('converted', a[0]))]


@model('control::group::sse2::Group::static_empty')
def _(I, st, a, c):
    return [(st, ('static_empty',))]


def gmask(kind):
    def f(I, st, a, c):
        g = I.load(st, a[0]) if isinstance(a[0], tuple) and a[0][0] == 'ref' else a[0]
        return [(st, ('bm', kind, g) + tuple(a[1:]))]
    return f


for k in ('match_empty', 'match_full', 'match_empty_or_deleted', 'match_tag'):
    RM['control::group::sse2::Group::' + k] = gmask(k[6:])


@model('control::bitmask::BitMask::any_bit_set')
def _(I, st, a, c):
    return [(st, ('fact', 'any', a[0]))]


@model('control::bitmask::BitMask::lowest_set_bit')
def _(I, st, a, c):
    out = []
    for s, t in st.fork(('fact', 'any', a[0])):
        out.append((s, some(('low', a[0])) if t else NONE))
    return out


@model('control::bitmask::BitMask::leading_zeros')
def _(I, st, a, c):
    return [(st, ('lz', a[0]))]


@model('control::bitmask::BitMask::trailing_zeros')
def _(I, st, a, c):
    return [(st, ('tz', a[0]))]


@model('<control::bitmask::BitMaskIter as std::iter::Iterator>::next')
def _(I, st, a, c):
    m = I.load(st, a[0])
    s1, s2 = st.copy(), st.copy()
    b = ('bit', m, I.fresh('b'))
    s1.ord.assume(lt(b, W))
    s2.eff.append(('bitsdone', m))
    return [(s1, some(b)), (s2, NONE)]


@model('<control::bitmask::BitMaskIter as std::clone::Clone>::clone', '<control::bitmask::BitMask as std::clone::Clone>::clone',
       '<control::group::sse2::Group as std::clone::Clone>::clone', '<control::tag::Tag as std::clone::Clone>::clone',
       '<raw::Bucket<T> as std::clone::Clone>::clone')
def _(I, st, a, c):
    return [(st, I.load(st, a[0]))]


# ---------------------------------------------------------------- buckets
def bucket_arg(I, st, v):
    while isinstance(v, tuple) and v and v[0] == 'ref':
        v = I.load(st, v)
    if isinstance(v, tuple) and v and v[0] == 'bucket':
        return v
    raise Undecided('bucket %r' % (v,))


@model('raw::Bucket::from_base_index')
def _(I, st, a, c):
    p = a[0]
    if is_pa(p) and p[1][0] == 'ctrlp' and p[2] == 0:
        return [(st, ('bucket', p[1][1], a[1]))]
    raise Undecided('bucket base')


@model('raw::Bucket::to_base_index')
def _(I, st, a, c):
    b = bucket_arg(I, st, a[0])
    p = a[1]
    if is_pa(p) and p[1] == ('ctrlp', b[1]) and p[2] == 0:
        return [(st, b[2])]
    st.issues.append('index of a bucket taken relative to another table')
    return [(st, ('foreign', b))]


@model('raw::Bucket::next_n')
def _(I, st, a, c):
    b = bucket_arg(I, st, a[0])
    return [(st, ('bucket', b[1], add(b[2], a[1])))]


@model('raw::Bucket::as_ptr')
def _(I, st, a, c):
    b = bucket_arg(I, st, a[0])
    return [(st, ('eptr', b[1], b[2]))]


@model('raw::Bucket::as_ref', 'raw::Bucket::as_mut')
def _(I, st, a, c):
    b = bucket_arg(I, st, a[0])
    st.eff.append(('el', 'ref', b[1], b[2], None))
    return [(st, ('eptr', b[1], b[2]))]


@model('raw::Bucket::read')
def _(I, st, a, c):
    b = bucket_arg(I, st, a[0])
    st.eff.append(('el', 'read', b[1], b[2], None))
    return [(st, ('item', b[1], b[2]))]


@model('raw::Bucket::write')
def _(I, st, a, c):
    b = bucket_arg(I, st, a[0])
    st.eff.append(('el', 'write', b[1], b[2], a[1]))
    return [(st, UNIT)]


@model('raw::Bucket::drop')
def _(I, st, a, c):
    b = bucket_arg(I, st, a[0])
    st.eff.append(('el', 'drop', b[1], b[2], None))
    return [(s, UNIT) for s, _ in I.user(st, c, 'drop', [('item', b[1], b[2])])]


@model('std::ptr::drop_in_place', 'std::ptr::mut_ptr::<impl *mut T>::drop_in_place')
def _(I, st, a, c):
    p = a[0]
    if isinstance(p, tuple) and p[0] == 'eptr':
        st.eff.append(('el', 'drop', p[1], p[2], None))
    else:
        st.eff.append(('dropval', p))
    return [(s, UNIT) for s, _ in I.user(st, c, 'drop', [p])]


@model('raw::RawTableInner::bucket_ptr')
def _(I, st, a, c):
    t = I.load(st, a[0])
    return [(st, ('eptr', tid_of(t), a[1]))]


def tid_of(t):
    if is_agg(t, 'raw::RawTable'):
        t = fget(t, 'table')
    p = fget(t, 'ctrl')
    if is_pa(p) and p[1][0] == 'ctrlp' and p[2] == 0:
        return p[1][1]
    raise Undecided('table pointer %r' % (p,))


@model('std::ptr::copy_nonoverlapping', 'std::ptr::swap_nonoverlapping', 'std::ptr::copy')
def _(I, st, a, c):
    if all(isinstance(x, tuple) and x[0] == 'eptr' for x in a[:2]):
        k = 'swap' if 'swap' in c.path else 'copy'
        st.eff.append(('el', k, a[0][1], a[0][2], (a[1][1], a[1][2]), a[2]))
        return [(st, UNIT)]
    return NotImplemented


@model('std::ptr::mut_ptr::<impl *mut T>::copy_to', 'std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping')
def _(I, st, a, c):
    if is_pa(a[0]) and is_pa(a[1]) and a[0][1][0] == a[1][1][0] == 'ctrlp':
        src, so, dst, do, n = a[0][1][1], a[0][2], a[1][1][1], a[1][2], a[2]
        b = add(I.mask_of(st, dst), 1)
        if src == dst and so == 0 and (do == W and n == b and st.ord.proves(le(b, W)) or
                                       do == b and n == W and st.ord.proves(le(W, b))):
            st.eff.append(('mirrorfix', dst))
            return [(st, UNIT)]
        if src != dst and so == 0 and do == 0 and n == add(b, W) and st.ord.same(I.mask_of(st, src), sub(b, 1)):
            st.eff.append(('copyall', src, dst))
            return [(st, UNIT)]
        st.eff.append(('ctrlcopy', src, so, dst, do, n))
        st.eff.append(('bulk', frozenset([a[1][1][1]]), I.fresh('ep')))
        return [(st, UNIT)]
    raise Undecided('raw copy')


@model('std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping')
def _(I, st, a, c):
    if a[2] == 1:
        I.store(st, a[0], I.load(st, a[1]))
        return [(st, UNIT)]
    raise Undecided('raw copy')


@model('std::slice::from_raw_parts_mut')
def _(I, st, a, c):
    if is_pa(a[0]) and a[0][1][0] == 'ctrlp':
        return [(st, ('ctrls', a[0][1][1], a[0][2], a[1]))]
    return NotImplemented


@model('control::tag::TagSliceExt::fill_tag', '<[control::tag::Tag] as control::tag::TagSliceExt>::fill_tag')
def _(I, st, a, c):
    p = a[0]
    if isinstance(p, tuple) and p[0] == 'ctrls':
        tid = p[1]
        m = I.mask_of(st, tid)
        if p[2] == 0 and p[3] == add(m, W + 1):
            st.eff.append(('fill', tid, a[1]))
        else:
            st.eff.append(('partfill', tid, p[2], p[3], a[1]))
            st.eff.append(('bulk', frozenset([tid]), I.fresh('ep')))
        return [(st, UNIT)]
    raise Undecided('fill')


# ---------------------------------------------------------------- allocation
@model('std::mem::size_of', 'std::mem::align_of')
def _(I, st, a, c):
    return [(st, (c.path.rsplit('::', 1)[-1], str(c.callee['args'])))]


@model('raw::bucket_mask_to_capacity')
def _(I, st, a, c):
    if is_int(a[0]):
        m = a[0]
        return [(st, m if m < 8 else (m + 1) // 8 * 7)]
    r = ('cap', a[0])
    st.ord.assume(le(r, a[0]))
    return [(st, r)]


@model('raw::capacity_to_buckets')
def _(I, st, a, c):
    b = ('buckets', a[0])
    s1, s2 = st.copy(), st.copy()
    s1.ord.assume(lt(3, b))
    s1.ord.assume(le(a[0], ('cap', sub(b, 1))))
    return [(s1, some(b)), (s2, NONE)]


@model('raw::RawTableInner::new_uninitialized')
def _(I, st, a, c):
    tid = I.fresh('T')
    st.extra[('mask', tid)] = sub(a[1], 1)
    st.extra[('layout', tid)] = a[0]
    st.extra[('init', tid)] = 'uninit'
    st.eff.append(('alloc', tid))
    g = ('cap', sub(a[1], 1))
    st.ord.assume(le(g, sub(a[1], 1)))
    u = st.copy()
    u.eff.pop()
    u.eff.append(('unwind', 'panic', c.line))
    I.pend.append(u)
    return [(st, inner(tid, sub(a[1], 1), 0, g))]


@model('raw::RawTableInner::free_buckets')
def _(I, st, a, c):
    t = I.load(st, a[0])
    st.eff.append(('free', tid_of(t), a[1]))
    if not st.ord.proves(neg(eq(fget(t, 'bucket_mask'), 0))):
        st.issues.append('the shared empty table may be freed')
    return [(st, UNIT)]


RM['const:raw::RawTableInner::NEW'] = inner('NEW', 0, 0, 0)


@model('raw::RawTableInner::new')
def _(I, st, a, c):
    return [(st, inner('NEW', 0, 0, 0))]


# ---------------------------------------------------------------- iteration over ranges and the table
@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def _(I, st, a, c):
    r = I.load(st, a[0])
    lo, hi = fget(r, 'start'), fget(r, 'end')
    out = []
    for s, t in st.fork(lt(lo, hi)):
        if t:
            I.store(s, a[0], agg(r[1], r[2], r[3], [('start', add(lo, 1)), ('end', hi)]))
            out.append((s, some(lo)))
        else:
            out.append((s, NONE))
    return out


@model('std::iter::Iterator::step_by')
def _(I, st, a, c):
    r = a[0]
    return [(st, agg('stepby', 0, 'stepby', [('start', fget(r, 'start')), ('end', fget(r, 'end')), ('step', a[1])]))]


@model('<std::iter::StepBy<I> as std::iter::Iterator>::next')
def _(I, st, a, c):
    r = I.load(st, a[0])
    lo, hi, n = fget(r, 'start'), fget(r, 'end'), fget(r, 'step')
    out = []
    for s, t in st.fork(lt(lo, hi)):
        if t:
            I.store(s, a[0], agg('stepby', 0, 'stepby', [('start', add(lo, n)), ('end', hi), ('step', n)]))
            out.append((s, some(lo)))
        else:
            out.append((s, NONE))
    return out


@model('<&mut I as std::iter::Iterator>::next')
def _(I, st, a, c):
    p = a[0]
    v = I.load(st, p)
    if isinstance(v, tuple) and v and v[0] == 'ref':
        p = v
        v = I.load(st, p)
    return iter_next(I, st, p, v, c)


def iter_next(I, st, ref, v, c):
    if is_agg(v, 'raw::RawIter'):
        return RM['<raw::RawIter<T> as std::iter::Iterator>::next'](I, st, [ref], c)
    if is_agg(v, 'raw::FullBucketsIndices'):
        return RM['<raw::FullBucketsIndices as std::iter::Iterator>::next'](I, st, [ref], c)
    raise Undecided('next of %r' % (v[1] if is_agg(v) else v,))


def table_iter(kind):
    """The element iterators, as specified by C14: each full slot once, `items` of them."""
    def f(I, st, a, c):
        v = I.load(st, a[0])
        tid = iter_tid(v)
        n = fget(v, 'items')
        out = []
        for s, t in st.fork(eq(n, 0)):
            if t:
                s = s.copy()
                s.eff.append(('exhausted', tid))
                out.append((s, NONE))
                continue
            s = s.copy()
            i = ('slot', tid, I.fresh('i'))
            s.ord.assume(le(i, I.mask_of(s, tid)))
            tag = I.tag_at(s, tid, i)
            cl = I.cls_of(s, tag)
            if 'F' not in cl:
                continue
            if isinstance(tag, tuple) and tag[0] == 'tag':
                s.cls[tag] = 'F'
            s.eff.append(('yield', tid, i))
            v2 = ('agg', v[1], v[2], v[3], tuple((k, sub(x, 1) if k == 'items' else x) for k, x in v[4]))
            I.store(s, a[0], v2)
            out.append((s, some(('bucket', tid, i) if kind == 'b' else i)))
        return out
    return f


def iter_tid(v):
    if is_agg(v, 'raw::RawIter'):
        r = fget(v, 'iter')
        if isinstance(r, tuple) and r[0] == 'range':
            return r[1]
    if is_agg(v, 'raw::FullBucketsIndices'):
        p = fget(v, 'ctrl')
        if is_pa(p) and p[1][0] == 'ctrlp':
            return p[1][1]
    raise Undecided('iterator of unknown table')


RM['<raw::RawIter<T> as std::iter::Iterator>::next'] = table_iter('b')
RM['<raw::FullBucketsIndices as std::iter::Iterator>::next'] = table_iter('i')


@model('raw::RawIterRange::new')
def _(I, st, a, c):
    p, b = a[0], bucket_arg(I, st, a[1])
    if is_pa(p) and p[1] == ('ctrlp', b[1]) and p[2] == 0 and b[2] == 0 and a[2] == add(I.mask_of(st, b[1]), 1):
        st.eff.append(('newiter', b[1]))
        return [(st, ('range', b[1]))]
    st.issues.append('element iterator built over part of the table')
    return [(st, ('range', b[1]))]


@model('<raw::RawIterRange<T> as std::clone::Clone>::clone')
def _(I, st, a, c):
    return [(st, I.load(st, a[0]))]


@model('std::iter::ExactSizeIterator::len')
def _(I, st, a, c):
    v = I.load(st, a[0])
    if is_agg(v) and any(k == 'items' for k, _ in v[4]):
        return [(st, fget(v, 'items'))]
    return NotImplemented


# ---------------------------------------------------------------- searching, as specified by C12
@model('raw::RawTableInner::find_insert_slot')
def _(I, st, a, c):
    t = I.load(st, a[0])
    tid = tid_of(t)
    i = ('ins', tid, a[1], I.fresh('i'))
    st.ord.assume(le(i, fget(t, 'bucket_mask')))
    out = []
    tag = I.tag_at(st, tid, i)
    if I.cls_of(st, tag) == 'F':
        raise Undecided('insert slot')
    if isinstance(tag, tuple) and tag[0] == 'tag':
        st.cls[tag] = ''.join(k for k in I.cls_of(st, tag) if k != 'F')
    st.eff.append(('probe', tid, a[1]))
    return [(st, agg('raw::InsertSlot', 0, 'InsertSlot', [('index', i)]))]


def found(I, st, tid, mask, h):
    s = st.copy()
    i = ('hit', tid, h, I.fresh('i'))
    s.ord.assume(le(i, mask))
    tag = I.tag_at(s, tid, i)
    if 'F' not in I.cls_of(s, tag):
        return None, None
    if isinstance(tag, tuple) and tag[0] == 'tag':
        s.cls[tag] = 'F'
    s.ord.assume(le(1, ('items', tid)))
    return s, i


def finder(insert):
    def f(I, st, a, c):
        t = I.load(st, a[0])
        tid, mask, h = tid_of(t), fget(t, 'bucket_mask'), a[1]
        out = []
        st.eff.append(('search', tid, h))
        # the callback refuses some candidates, then accepts one or the probing ends
        for again in (0, 1):
            st0 = [st.copy()]
            if again:
                s, i = found(I, st, tid, mask, h)
                if s is None:
                    continue
                st0 = []
                for s2, v in I.call_value(s, c, a[2], [i]):
                    for s3, tr in s2.fork(v):
                        if not tr:
                            st0.append(s3)
            for s0 in st0:
                s, i = found(I, s0, tid, mask, h)
                if s is not None:
                    for s2, v in I.call_value(s, c, a[2], [i]):
                        for s3, tr in s2.fork(v):
                            if tr:
                                out.append((s3, (ok if insert else some)(i)))
                s1 = s0.copy()
                if insert:
                    r = RM['raw::RawTableInner::find_insert_slot'](I, s1, [a[0], h], c)
                    out += [(s4, err(v)) for s4, v in r]
                else:
                    out.append((s1, NONE))
        return out
    return f


RM['raw::RawTableInner::find_inner'] = finder(False)
RM['raw::RawTableInner::find_or_find_insert_slot_inner'] = finder(True)


@model('raw::RawTableInner::is_in_same_group')
def _(I, st, a, c):
    out = []
    for s, t in st.fork(('fact', 'samegroup', a[1], a[2], a[3])):
        if not t:
            s = s.copy()
            s.ord.assume(neg(eq(a[1], a[2])))
        out.append((s, TRUE if t else FALSE))
    return out


# ---------------------------------------------------------------- regrowing, as specified by the rules on itself
def relaid(I, st, ref, room, c, size=0):
    """The table behind `ref` is laid out anew with the same elements and at least `room` free."""
    t = I.load(st, ref)
    old = tid_of(t)
    if fget(t, 'items') != ('items', old) and old != 'NEW':
        st.issues.append('a table is regrown while its entry count is out of step')
    u = st.copy()
    tid = I.fresh('G')
    s = st.copy()
    m = ('mask', tid)
    s.ord.assume(le(1, m))
    s.ord.assume(le(('cap', m), m))
    n = fget(t, 'items')
    s.ord.assume(le(add(n, room), ('cap', m)))
    s.ord.assume(le(room, ('gl', tid)))
    s.ord.assume(le(size, ('cap', m)))
    s.ord.assume(le(add(n, ('gl', tid)), ('cap', m)))
    if size:
        s.ord.assume(eq(add(n, ('gl', tid)), ('cap', m)))
    s.eff.append(('relaid', old, tid))
    I.store(s, ref, inner(tid, m, n, ('gl', tid)))
    s.extra[('base', tid)] = n
    # a panicking hasher leaves a sound table, possibly with fewer elements
    v = I.fresh('P')
    u.eff.append(('relaid', old, v))
    u.eff.append(('unwind', 'hasher', c.line))
    I.store(u, ref, inner(v))
    I.pend.append(u)
    return s


def hasher_of(I, st, a, c, fn):
    """The hash function handed to a regrowing table must hash the element at the index given."""
    if isinstance(fn, tuple) and fn[0] in ('arg', 'fld'):
        return
    tid = tid_of(I.load(st, a[0]))
    i = ('slot', tid, I.fresh('i'))
    s0 = st.copy()
    tag = I.tag_at(s0, tid, i)
    if isinstance(tag, tuple) and tag[0] == 'tag':
        s0.cls[tag] = 'F'
    save, I.pend = I.pend, []
    try:
        res = I.call_value(s0, c, fn, [a[0], i])
    finally:
        I.pend = save
    for s, v in res:
        if v in (('khash', ('fld', ('item', tid, i), '0')), ('khash', ('item', tid, i))):
            continue
        u = [e for e in s.eff[len(s0.eff):] if e[0] == 'user' and ('ucall', e[1], e[4]) == v]
        if not u or not any(x == ('eptr', tid, i) or x == ('&', ('eptr', tid, i)) for x in u[0][2]):
            st.issues.append('place:a regrown table files an element under a hash that is not its own')


@model('raw::RawTableInner::reserve_rehash_inner')
def _(I, st, a, c):
    hasher_of(I, st, a, c, a[2])
    st.eff.append(('user', 'hasher', (a[2],), c.line, 0))
    return [(relaid(I, st, a[0], a[1], c), UNIT)]


@model('raw::RawTableInner::resize_inner')
def _(I, st, a, c):
    t = I.load(st, a[0])
    hasher_of(I, st, a, c, a[2])
    st.eff.append(('user', 'hasher', (a[2],), c.line, 0))
    if not st.ord.proves(le(fget(t, 'items'), a[1])):
        st.issues.append('a table may be resized below its entry count')
    return [(relaid(I, st, a[0], 0, c, a[1]), UNIT)]


@model('std::mem::needs_drop')
def _(I, st, a, c):
    return [(st, ('fact', 'needs_drop', str(c.callee['args'])))]


@model('<raw::RawIter<T> as std::iter::Iterator>::fold')
def _(I, st, a, c):
    """The callback runs on each element; one generic call stands for all."""
    tid = iter_tid(a[0])
    out = []
    acc = a[1]
    for s, t in st.fork(eq(fget(a[0], 'items'), 0)):
        if t:
            out.append((s, acc))
            continue
        s = s.copy()
        i = ('slot', tid, I.fresh('i'))
        tag = I.tag_at(s, tid, i)
        if isinstance(tag, tuple) and tag[0] == 'tag':
            s.cls[tag] = 'F'
        s.eff.append(('yield', tid, i))
        for s2, v in I.call_value(s, c, a[2], [('acc', I.fresh('acc')), ('bucket', tid, i)]):
            s2.eff.append(('exhausted', tid))
            out.append((s2, v))
    return out


@model('<raw::RawIterHashInner as std::iter::Iterator>::next')
def _(I, st, a, c):
    v = I.load(st, a[0])
    if is_agg(v):
        p = fget(v, 'ctrl')
        tid, h = p[1][1], fget(v, 'tag_hash')[1]
    else:
        raise Undecided('hash iterator')
    none = st.copy()
    none.eff.append(('hexhausted', tid))
    out = [(none, NONE)]
    s, i = found(I, st, tid, I.mask_of(st, tid), h)
    if s is not None:
        s.eff.append(('hyield', tid, i))
        out.append((s, some(i)))
    return out


@model('map::make_hash')
def _(I, st, a, c):
    """The hash of a key under a map's own hash builder: a function of the key (specified on its own)."""
    k = keyval(I, st, a[1])
    return I.user(st, c, 'hash', [k], ('khash', k))


def keyval(I, st, v):
    """What a reference to a key denotes, independent of how it was reached."""
    for _ in range(6):
        if isinstance(v, tuple) and v and v[0] == '&':
            v = v[1]
        elif isinstance(v, tuple) and v and v[0] == 'ref':
            try:
                v = I.load(st, v)
            except (Undecided, KeyError):
                return v
        else:
            break
    return v
