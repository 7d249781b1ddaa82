"""Memory of the hash table (C13): bucket counts, layouts, allocation and release."""
from terms import *
from absint import Undecided
from raw import *
from rawspec import call, truth, table_ref, guarded, MASK
import rawmodels

MAX = 2 ** 64 - 1
IMAX = 2 ** 63 - 1
SIZE, ALIGN = ('arg', 'size'), ('arg', 'align')
LAYOUT = agg('raw::TableLayout', 0, 'TableLayout', [('size', SIZE), ('ctrl_align', ALIGN)])


def sure(s, cond):
    return s.ord.proves(cond) or s.ord.feasible([neg(cond)]) is False


def facts(st):
    for c in (le(W, ALIGN), le(ALIGN, 2 ** 62), le(SIZE, IMAX)):
        st.ord.assume(c)


def m_pow2(I, st, a, c):
    """x.next_power_of_two(): at least x; a multiple of 8 once x is at least 5."""
    p = ('pow2', a[0])
    if sure(st, le(5, a[0])):
        p = scale(('pow2/8', a[0]), 8)
    for f in (le(a[0], p), le(p, 2 ** 63), lt(p, add(a[0], a[0]))):
        st.ord.assume(f)
    return [(st, p)]


def is_pow2(b):
    if is_int(b):
        return b > 1 and b & (b - 1) == 0
    c, d = lin(b)
    return c == 0 and len(d) == 1 and list(d)[0][0] in ('pow2', 'pow2/8') and is_pow2(2 * list(d.values())[0])


def m_layout(I, st, a, c):
    return [(st, ('layout', a[0], a[1]))]


def m_alloc(I, st, a, c):
    p = ('mem', I.fresh('m'))
    st.eff.append(('alloc', p, a[0]))
    return [(st, p)]


def m_dealloc(I, st, a, c):
    st.eff.append(('dealloc', a[0], a[1]))
    return [(st, UNIT)]


def m_nonnull(I, st, a, c):
    s1, s2 = st.copy(), st.copy()
    s2.eff.append(('allocfail', a[0]))
    return [(s1, some(a[0])), (s2, NONE)]


def m_laid(I, st, a, c):
    """Some((layout, offset)) for the table layout and bucket count given, or None."""
    return [(st.copy(), some(agg('()', 0, '()', [('0', ('lay', a[0], a[1])), ('1', ('off', a[0], a[1]))]))),
            (st.copy(), NONE)]


EXTRA = {
    'core::num::<impl usize>::next_power_of_two': m_pow2,
    'std::alloc::Layout::from_size_align_unchecked': m_layout,
    'std::alloc::alloc': m_alloc, 'std::alloc::dealloc': m_dealloc, 'std::ptr::NonNull::new': m_nonnull,
    'std::hint::unreachable_unchecked': lambda I, st, a, c: [],
}
LAID = dict(EXTRA)
LAID['raw::TableLayout::calculate_layout_for'] = m_laid


def spec_capacity(o):
    path = 'raw::bucket_mask_to_capacity'
    st = RState()
    m = ('arg', 'mask')
    st.ord.assume(le(m, 2 ** 63 - 1))
    f, I, rs = call(o, path, [m], st, extra=EXTRA)
    wraps(o, f, I)
    for s, v in rs:
        o.need('C13', 'room', f, sure(s, le(v, m)),
               'the capacity reported for a bucket count leaves no slot free, so a search may never end')
    if not rs:
        raise Undecided('bucket_mask_to_capacity')


def spec_buckets(o):
    path = 'raw::capacity_to_buckets'
    st = RState()
    cap = ('arg', 'cap')
    facts(st)
    st.ord.assume(le(1, cap))
    st.ord.assume(le(cap, MAX))
    f, I, rs = call(o, path, [cap, LAYOUT], st, extra=EXTRA)
    g = o.fn('raw::bucket_mask_to_capacity')
    wraps(o, f, I)
    for s, v in rs:
        if not (is_agg(v) and v[3] == 'Some'):
            o.need('C13', 'room', f, any(t is True and k[1] == 'overflow' for k, t in s.ord.facts.items()),
                   'a capacity that fits is refused')
            continue
        b = fget(v, '0')
        o.need('C13', 'layout', f, is_pow2(b),
               'the bucket count chosen is not a power of two')
        J = RInterp(o.prog, {k: x for k, x in rawmodels.RM.items() if k != 'raw::bucket_mask_to_capacity'})
        for s2, c2 in J.call_fn(s.copy(), g, [sub(b, 1)], 0):
            o.need('C13', 'room', f, sure(s2, le(cap, c2)),
                   'the bucket count chosen has less room than the capacity asked for')


def spec_layout(o):
    path = 'raw::TableLayout::calculate_layout_for'
    st = RState()
    n = ('arg', 'buckets')
    facts(st)
    st.ord.assume(le(1, n))
    st.ord.assume(le(n, 2 ** 63))
    f, I, rs = call(o, path, [LAYOUT, n], st, extra=EXTRA)
    wraps(o, f, I)
    data = I.binop(RState(), 'Mul', SIZE, n)
    some_ = False
    for s, v in rs:
        if not (is_agg(v) and v[3] == 'Some'):
            continue
        some_ = True
        lay, off = fget(fget(v, '0'), '0'), fget(fget(v, '0'), '1')
        x = up(off, ALIGN)
        if x is not None:
            s = s.copy()
            s.ord.assume(le(off, x))
            s.ord.assume(le(sub(x, sub(ALIGN, 1)), off))
        o.need('C13', 'layout', f, x is not None, 'the control bytes are not aligned for group loads')
        o.need('C13', 'layout', f, sure(s, le(data, off)),
               'the control bytes start inside the space of the elements')
        if not (isinstance(lay, tuple) and lay[0] == 'layout'):
            raise Undecided('layout %r' % (lay,))
        o.need('C13', 'layout', f, sure(s, le(add(off, add(n, W)), lay[1])),
               'the allocation has no room for every control byte and its mirror')
        o.need('C13', 'layout', f, sure(s, le(lay[1], sub(IMAX, sub(ALIGN, 1)))),
               'the allocation may be larger than any allocation can be')
        o.need('C13', 'layout', f, lay[2] == ALIGN, 'the allocation is not aligned for elements and groups')
    o.need('C13', 'layout', f, some_, 'no layout is ever produced')


def up(t, a):
    """x when t is x & !(a - 1)."""
    n = ('not!', sub(a, 1))
    if isinstance(t, tuple) and t[0] == 'BitAnd' and n in t[1:]:
        return t[2] if t[1] == n else t[1]
    return None


def spec_tablelayout(o):
    path = 'raw::TableLayout::new'
    sz, al = ('arg', 'lsize'), ('arg', 'lalign')
    ex = dict(EXTRA)
    ex['std::alloc::Layout::new'] = lambda I, st, a, c: [(st, ('layout', sz, al))]
    ex['std::alloc::Layout::size'] = lambda I, st, a, c: [(st, sz)]
    ex['std::alloc::Layout::align'] = lambda I, st, a, c: [(st, al)]
    ex['std::mem::size_of'] = ex['std::alloc::Layout::size']
    ex['std::mem::align_of'] = ex['std::alloc::Layout::align']
    f, I, rs = call(o, path, [], RState(), extra=ex)
    for s, v in rs:
        a = fget(v, 'ctrl_align')
        o.need('C13', 'layout', f, fget(v, 'size') == sz, 'the space per element is not the size of an element')
        o.need('C13', 'layout', f, sure(s, le(al, a)) and sure(s, le(W, a)) and (a == al or a == W),
               'the table is not aligned for its elements and its groups')


def spec_new(o):
    path = 'raw::RawTableInner::new_uninitialized'
    st = RState()
    n = ('arg', 'buckets')
    f, I, rs = call(o, path, [LAYOUT, n], st, drop=(path, 'raw::TableLayout::calculate_layout_for'), extra=LAID)
    for s, v in rs:
        al = [e for e in s.eff if e[0] == 'alloc']
        o.need('C13', 'alloc', f, len(al) == 1 and al[0][2] == ('lay', LAYOUT, n),
               'the memory of a new table does not have the layout computed for its bucket count')
        if any(e[0] == 'allocfail' for e in s.eff):
            o.bad('C13', 'alloc', f, 'a failed allocation is used as a table')
            continue
        if al:
            o.need('C13', 'alloc', f, fget(v, 'ctrl') == ('pa', al[0][1], ('off', LAYOUT, n)),
                   'the control bytes of a new table do not start where the layout says')
        o.need('C13', 'alloc', f, fget(v, 'bucket_mask') == sub(n, 1) and fget(v, 'items') == 0,
               'a new table does not have the bucket count it was allocated for')
        o.need('C13', 'room', f, fget(v, 'growth_left') == cap_of(o, sub(n, 1)),
               'a new table does not have the room of its bucket count')


def cap_of(o, m):
    return ('cap', m)


def tid_of(t):
    return rawmodels.tid_of(t)


def spec_info(o):
    path = 'raw::RawTableInner::allocation_info'
    st = RState()
    t = table_ref(st)
    st.ord.assume(le(1, MASK))
    f, I, rs = call(o, path, [t, LAYOUT], st, drop=(path,), extra=LAID)
    n = add(MASK, 1)
    if not rs:
        raise Undecided('allocation_info')
    for s, v in rs:
        o.need('C13', 'free', f, fget(v, '0') == ('pa', ('ctrlp', 'S'), scale(('off', LAYOUT, n), -1)) and
               fget(v, '1') == ('lay', LAYOUT, n),
               'the memory given back is not the block the table was allocated with')


def spec_free(o):
    """free_buckets hands exactly one block back, the one allocation_info names."""
    path = 'raw::RawTableInner::free_buckets'
    st = RState()
    t = table_ref(st)
    st.ord.assume(le(1, MASK))
    f, I, rs = call(o, path, [t, LAYOUT], st, drop=(path, 'raw::RawTableInner::allocation_info'), extra=LAID)
    n = add(MASK, 1)
    for s, v in rs:
        d = [e for e in s.eff if e[0] == 'dealloc']
        o.need('C13', 'free', f, len(d) == 1 and d[0][1] == ('pa', ('ctrlp', 'S'), scale(('off', LAYOUT, n), -1)) and
               d[0][2] == ('lay', LAYOUT, n), 'giving up a table does not free its one block')
    path = 'raw::RawTable::into_allocation'
    st = RState()
    st.mem[('O', 'self')] = outer('S')
    f, I, rs = call(o, path, [outer('S')], st, drop=(path, 'raw::RawTableInner::allocation_info'), extra=LAID)
    for s, v in rs:
        if is_agg(v) and v[3] == 'Some':
            p, l = fget(fget(v, '0'), '0'), fget(fget(v, '0'), '1')
            lay = l[1] if isinstance(l, tuple) and l[0] == 'lay' else None
            o.need('C13', 'free', f, lay is not None and l[2] == n and
                   p == ('pa', ('ctrlp', 'S'), scale(('off', lay, n), -1)),
                   'the block handed over with the elements is not the one the table was allocated with')
            o.need('C13', 'free', f, not s.ord.feasible([eq(MASK, 0)]) or sure(s, le(1, MASK)),
                   'the shared empty table is handed over as an allocation')
        else:
            o.need('C13', 'free', f, sure(s, eq(MASK, 0)), 'the block of a table is forgotten when it is '
                   'turned into an iterator')


def spec_into_iter_drop(o):
    path = next(p for p in o.by if p.startswith('<raw::RawIntoIter') and p.endswith('std::ops::Drop>::drop'))
    st = RState()
    p, l = ('arg', 'block'), ('arg', 'layout')
    for held in (True, False):
        st = RState()
        alloc = some(agg('()', 0, '()', [('0', p), ('1', l)])) if held else NONE
        st.mem[('O', 'self')] = agg('raw::RawIntoIter', 0, 'RawIntoIter', [
            ('iter', ('arg', 'iter')), ('allocation', alloc), ('marker', UNIT)])
        ex = dict(EXTRA)
        ex['raw::RawIter::drop_elements'] = lambda I, st, a, c: [(st, UNIT)]
        f, I, rs = call(o, path, [('ref', ('O', 'self'), ())], st, extra=ex)
        for s, v in rs:
            d = [e for e in s.eff if e[0] == 'dealloc']
            o.need('C13', 'free', f, [(x[1], x[2]) for x in d] == ([(p, l)] if held else []),
                   'a consuming iterator does not free the block it owns exactly once')


def wraps(o, f, I):
    for (op, r, ok_) in I.wraps:
        o.need('C13', 'wrap', f, ok_, 'a size computed from the request may wrap around')


def c13(o):
    for fn in (spec_capacity, spec_buckets, spec_layout, spec_tablelayout, spec_new, spec_info, spec_free,
               spec_into_iter_drop):
        guarded(o, 'C13', fn.__name__, lambda: fn(o))
