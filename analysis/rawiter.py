"""Element iteration over the hash table (C14): every full slot once, and no other."""
from terms import *
from absint import Undecided
from raw import *
from rawspec import call, truth, table_ref, guarded, MASK
from rawmem import sure
import rawmodels

CTRL0 = ('ctrlp', 'S')


def full(at):
    return ('bm', 'full', ('grp', 'S', at, 0))


def rng(bits, d, nxt, end):
    return agg('raw::RawIterRange', 0, 'RawIterRange', [
        ('current_group', bits), ('data', ('bucket', 'S', d)), ('next_ctrl', ('pa', CTRL0, nxt)),
        ('end', ('pa', CTRL0, end))])


def spec_range_new(o):
    path = 'raw::RawIterRange::new'
    n, b = ('arg', 'len'), ('arg', 'b')
    st = RState()
    f, I, rs = call(o, path, [('pa', CTRL0, b), ('bucket', 'S', b), n], st)
    for s, v in rs:
        o.need('C14', 'start', f, fget(v, 'current_group') == full(b) and fget(v, 'data') == ('bucket', 'S', b) and
               fget(v, 'next_ctrl') == ('pa', CTRL0, add(b, W)) and fget(v, 'end') == ('pa', CTRL0, add(b, n)),
               'iteration does not start with the full slots of the first group')
    if not rs:
        raise Undecided(path)


def one_bit(t):
    bits = [a for a in lin(t)[1] if isinstance(a, tuple) and a[0] == 'bit']
    return bits[0] if len(bits) == 1 else None


def step(o, f, s, head, val, what):
    """One group step: the next group is loaded, and the base index moves with it."""
    hv, nv = head, val
    hd, nd = fget(hv, 'data')[2], fget(nv, 'data')[2]
    hn, nn = fget(hv, 'next_ctrl')[2], fget(nv, 'next_ctrl')[2]
    g = fget(nv, 'current_group')
    o.need('C14', 'step', f, s.ord.same(nd, add(hd, W)) and s.ord.same(nn, add(hn, W)),
           '%s does not go on with the next group' % what)
    o.need('C14', 'step', f, is_bits(g) and s.ord.same(g[2][2], hn),
           '%s does not take the full slots of the group it moves to' % what)
    o.need('C14', 'step', f, ('bitsdone', fget(hv, 'current_group')) in s.eff,
           '%s leaves a group before its last full slot' % what)


def is_bits(g):
    return isinstance(g, tuple) and g[0] == 'bm' and g[1] == 'full' and g[2][1] == 'S'


def spec_range_next(o):
    path = 'raw::RawIterRange::next_impl'
    st = RState()
    d, e = ('arg', 'd'), ('arg', 'end')
    st.mem[('O', 'self')] = rng(('arg', 'bits'), d, add(d, W), e)
    f, I, rs = call(o, path, [('ref', ('O', 'self'), ())], st)
    infos = [i for l in I.loops_seen.values() for i in l]
    if not infos:
        raise Undecided('no loop in %s' % path)
    info = infos[0]
    for s in info['conts']:
        step(o, f, s, info['head'].mem[('O', 'self')], s.mem[('O', 'self')], 'iteration')
    hv = info['head'].mem[('O', 'self')]
    for s, v in rs:
        nv = s.mem[('O', 'self')]
        if is_agg(v) and v[3] == 'Some':
            b = fget(v, '0')
            bit = one_bit(b[2]) if isinstance(b, tuple) and b[0] == 'bucket' else None
            cur = fget(nv, 'current_group')
            o.need('C14', 'yield', f, bit is not None and bit[1] in (cur, fget(hv, 'current_group')) and
                   s.ord.same(sub(b[2], bit), fget(nv, 'data')[2]),
                   'an iterator yields a slot other than the one its bit stands for')
        else:
            o.need('C14', 'end', f, sure(s, le(e, fget(nv, 'next_ctrl')[2])) and
                   ('bitsdone', fget(nv, 'current_group')) in s.eff,
                   'iteration ends although groups are left')


def spec_fold(o):
    path = 'raw::RawIterRange::fold_impl'
    st = RState()
    d, e, n = ('arg', 'd'), ('arg', 'end'), ('arg', 'n')
    f, I, rs = call(o, path, [rng(('arg', 'bits'), d, add(d, W), e), n, ('arg', 'acc'), ('arg', 'f')], st)
    infos = [i for l in I.loops_seen.values() for i in l]
    inner_, outer_ = None, None
    for i in infos:
        own = [x for s in i['conts'] for x in s.eff[i['pre'] + 1:] if x[0] == 'load']
        if own:
            outer_ = i
        else:
            inner_ = i
    if inner_ and not outer_:
        # no further group is ever read: right only when nothing is left
        fold_end(o, f, n, rs)
    if not (inner_ and outer_):
        raise Undecided('loops of %s' % path)
    for s in inner_['conts']:
        us = [x for x in s.eff[inner_['pre'] + 1:] if x[0] == 'user']
        h = head_of(inner_)
        nv = value_in(s, h)
        b = [x for u in us for x in u[2] if isinstance(x, tuple) and x[0] == 'bucket']
        bit = one_bit(b[0][2]) if len(b) == 1 else None
        o.need('C14', 'yield', f, len(us) == 1 and bit is not None and bit[1] == fget(h[2], 'current_group') and
               s.ord.same(sub(b[0][2], bit), fget(h[2], 'data')[2]),
               'folding does not hand each full slot over once')
        if us:
            dec = [k for k, (old, fr) in inner_['fresh'].items() if k[0] not in ('ghost', 'table') and
                   safe_same(I, s, k, sub(fr, 1))]
            o.need('C14', 'count', f, bool(dec), 'folding does not count the elements it hands over')
    for s in outer_['conts']:
        step(o, f, s, head_of(outer_)[2], value_in(s, head_of(outer_)), 'folding')
    fold_end(o, f, n, rs)


def fold_end(o, f, n, rs):
    for s, v in rs:
        zero = [x for x in set(atoms(s)) if isinstance(x, tuple) and x[0] == 'h' and s.ord.same(x, 0)]
        o.need('C14', 'end', f, bool(zero) or s.ord.same(n, 0), 'folding ends before every element was handed over')


def atoms(s):
    for c, d in s.ord.le:
        for a in d:
            yield a


def safe_same(I, s, k, t):
    try:
        return s.ord.same(I.read(s, k[0], k[1]), t)
    except (Undecided, KeyError, TypeError):
        return False


def head_of(info):
    for r, v in info['head'].mem.items():
        if is_agg(v, 'raw::RawIterRange') and (r[0] != 'L' or r[1] == info['frame']):
            return (r, (), v)
    raise Undecided('range')


def value_in(s, h):
    return s.mem[h[0]]


def counted(o, path, adt, fields, nxt, what):
    """next() of an iterator that counts: nothing at zero, otherwise the inner element and one less."""
    st = RState()
    n = ('arg', 'items')
    st.mem[('O', 'self')] = agg(adt, 0, adt.split('::')[-1], fields + [('items', n)])

    def inner_next(I, s, a, c):
        s.eff.append(('inner', a[0]))
        return [(s, ('nxt', sum(1 for e in s.eff if e[0] == 'inner')))]
    f, I, rs = call(o, path, [('ref', ('O', 'self'), ())], st, extra={nxt: inner_next})
    for s, v in rs:
        k = sum(1 for e in s.eff if e[0] == 'inner')
        left = fget(s.mem[('O', 'self')], 'items')
        if k == 0:
            o.need('C14', 'end', f, v == NONE and s.ord.same(n, 0) and left == n,
                   '%s ends although elements are left' % what)
        else:
            o.need('C14', 'count', f, k == 1 and v == ('nxt', 1) and s.ord.same(left, sub(n, 1)) and sure(s, le(1, n)),
                   '%s does not yield one element per step and count it' % what)
    if not rs:
        raise Undecided(path)


def hint(o, path, adt, fields, what):
    st = RState()
    n = ('arg', 'items')
    st.mem[('O', 'self')] = agg(adt, 0, adt.split('::')[-1], fields + [('items', n)])
    f, I, rs = call(o, path, [('ref', ('O', 'self'), ())], st)
    for s, v in rs:
        o.need('C14', 'count', f, fget(v, '0') == n and fget(v, '1') == some(n),
               '%s does not report the number of elements left' % what)


def full_indices(bits, first, at, items):
    return agg('raw::FullBucketsIndices', 0, 'FullBucketsIndices', [
        ('current_group', bits), ('group_first_index', first), ('ctrl', ('pa', CTRL0, at)), ('items', items)])


def spec_indices_next(o):
    path = 'raw::FullBucketsIndices::next_impl'
    st = RState()
    d = ('arg', 'd')
    st.mem[('O', 'self')] = full_indices(('arg', 'bits'), d, d, ('arg', 'items'))
    f, I, rs = call(o, path, [('ref', ('O', 'self'), ())], st)
    infos = [i for l in I.loops_seen.values() for i in l]
    if not infos:
        raise Undecided('no loop in %s' % path)
    info = infos[0]
    hv = info['head'].mem[('O', 'self')]
    hd, hc = fget(hv, 'group_first_index'), fget(hv, 'ctrl')[2]
    for s in info['conts']:
        nv = s.mem[('O', 'self')]
        nd, nc, g = fget(nv, 'group_first_index'), fget(nv, 'ctrl')[2], fget(nv, 'current_group')
        o.need('C14', 'step', f, s.ord.same(nd, add(hd, W)) and s.ord.same(nc, add(hc, W)) and is_bits(g) and
               s.ord.same(g[2][2], nc) and ('bitsdone', fget(hv, 'current_group')) in s.eff,
               'the walk over full slots does not go on with the full slots of the next group')
    for s, v in rs:
        nv = s.mem[('O', 'self')]
        if is_agg(v) and v[3] == 'Some':
            i = fget(v, '0')
            bit = one_bit(i)
            o.need('C14', 'yield', f, bit is not None and bit[1] == fget(nv, 'current_group') and
                   s.ord.same(sub(i, bit), fget(nv, 'group_first_index')),
                   'the walk over full slots yields another slot than its bit stands for')
        else:
            o.need('C14', 'end', f, False, 'the walk over full slots ends although elements are left')


def spec_build(o):
    """The iterators are built over the whole table and its entry count."""
    st = RState()
    t = table_ref(st)
    f, I, rs = call(o, 'raw::RawTableInner::iter', [t], st)
    for s, v in rs:
        o.need('C14', 'start', f, fget(v, 'iter') == ('range', 'S') and fget(v, 'items') == ('items', 'S') and
               not s.issues, 'an iterator does not cover the whole table')
    st = RState()
    t = table_ref(st)
    f, I, rs = call(o, 'raw::RawTableInner::full_buckets_indices', [t], st)
    for s, v in rs:
        o.need('C14', 'start', f, v == full_indices(full(0), 0, 0, ('items', 'S')),
               'the walk over full slots does not start with the first group and the entry count')


def spec_bucket(o):
    """Index and pointer of a slot determine each other, for sized and zero-sized elements."""
    drop = ('raw::Bucket::from_base_index', 'raw::Bucket::to_base_index', 'raw::Bucket::next_n',
            'raw::Bucket::as_ptr')
    base, i, n = ('pa', CTRL0, 0), ('arg', 'index'), ('arg', 'offset')
    zst = 0
    f, I, rs = call(o, 'raw::Bucket::from_base_index', [base, i], RState(), drop=drop)
    g, h, p = (o.fn('raw::Bucket::' + x) for x in ('to_base_index', 'next_n', 'as_ptr'))
    ptrs = {}
    for s, v in rs:
        r = ('O', 'b')
        s.mem[r] = v
        ptr = fget(v, 'ptr')
        if not is_pa(ptr):
            zst += 1
        for s2, x in I.call_fn(s.copy(), g, [('ref', r, ()), base], 0):
            if is_pa(ptr) == (not zero_sized(s2)):
                o.need('C14', 'index', g, s2.ord.same(x, i), 'a slot does not get its own index back')
        for s2, b2 in I.call_fn(s.copy(), h, [('ref', r, ()), n], 0):
            if is_pa(ptr) == (not zero_sized(s2)):
                want = ('pa', ptr[1], sub(ptr[2], n)) if is_pa(ptr) else add(ptr, n)
                o.need('C14', 'index', h, same_ptr(s2, fget(b2, 'ptr'), want),
                       'moving on by some slots does not reach the slot of that index')
        for s2, q in I.call_fn(s.copy(), p, [('ref', r, ())], 0):
            if is_pa(ptr) and not zero_sized(s2):
                o.need('C14', 'index', p, same_ptr(s2, q, ('pa', ptr[1], sub(ptr[2], 1))),
                       'the element pointer of a slot is not the one below its end')
    o.need('C14', 'index', f, all(not is_pa(fget(v, 'ptr')) or fget(v, 'ptr') == ('pa', CTRL0, scale(i, -1))
                                  for s, v in rs) and len(rs) >= 2, 'slot pointers do not count down from the control bytes')
    f, I, rs = call(o, 'raw::RawTableInner::bucket_ptr', [table_ref(st := RState()), i, ('arg', 'size_of')], st)
    for s, v in rs:
        z = ('arg', 'size_of')
        o.need('C14', 'index', f, same_ptr(s, v, ('pa', CTRL0, scale(I.binop(RState(), 'Mul', add(i, 1), z), -1))),
               'the bytes of a slot are not those of its element')


def spec_clones(o):
    """A copied iterator goes on exactly where the original stands."""
    for path in sorted(o.by):
        if not path.endswith(' as std::clone::Clone>::clone') or not path.startswith(('<raw::RawIter', '<raw::Bucket')):
            continue
        f = o.fn(path)
        adt = path[1:].split('<')[0].split(' as ')[0]
        a = f['crate'].adts.get(adt)
        if not a:
            raise Undecided(path)
        st = RState()
        v = agg(adt, 0, a['variants'][0][0], [(x[0], ('arg', x[0])) for x in a['variants'][0][1]])
        st.mem[('O', 'self')] = v
        drop = [p for p in o.by if p.endswith(' as std::clone::Clone>::clone')]
        ex = {p: (lambda I, s, a, c: [(s, I.load(s, a[0]))]) for p in drop if p != path}
        ex['std::clone::Clone::clone'] = lambda I, s, a, c: [(s, I.load(s, a[0]))]
        _, I, rs = call(o, path, [('ref', ('O', 'self'), ())], st, extra=ex)
        for s, r in rs:
            good = is_agg(r) and all(fget(r, n) == x or 'marker' in n for n, x in v[4])
            o.need('C14', 'clone', f, good, 'a copied iterator does not go on where the original stands')


def spec_fold_entry(o):
    path = '<raw::RawIter<T> as std::iter::Iterator>::fold'
    st = RState()
    got = []

    def fold(I, s, a, c):
        got.append(a)
        return [(s, ('folded',))]
    it = agg('raw::RawIter', 0, 'RawIter', [('iter', ('range', 'S')), ('items', ('arg', 'items'))])
    f, I, rs = call(o, path, [it, ('arg', 'init'), ('arg', 'f')], st, extra={'raw::RawIterRange::fold_impl': fold})
    for s, v in rs:
        o.need('C14', 'count', f, v == ('folded',) and len(got) == 1 and got[0] == [
            ('range', 'S'), ('arg', 'items'), ('arg', 'init'), ('arg', 'f')],
            'folding does not run over the elements left')


def zero_sized(s):
    for a in set(atoms(s)):
        if isinstance(a, tuple) and a[0] == 'size_of' and s.ord.same(a, 0):
            return True
    return False


def same_ptr(s, p, q):
    if is_pa(p) and is_pa(q):
        return p[1] == q[1] and s.ord.same(p[2], q[2])
    return not is_pa(p) and not is_pa(q) and s.ord.same(p, q)


def c14(o):
    R = [('iter', ('range', 'S'))]
    F = [('current_group', ('arg', 'bits')), ('group_first_index', ('arg', 'd')), ('ctrl', ('pa', CTRL0, ('arg', 'd')))]
    nx = 'raw::RawIterRange::next_impl'
    for fn in (spec_range_new, spec_range_next, spec_fold, spec_indices_next, spec_build, spec_bucket, spec_clones,
               spec_fold_entry):
        guarded(o, 'C14', fn.__name__, lambda: fn(o))
    guarded(o, 'C14', 'RawIter::next', lambda: counted(
        o, '<raw::RawIter<T> as std::iter::Iterator>::next', 'raw::RawIter', R, nx, 'the element iterator'))
    guarded(o, 'C14', 'RawIter::size_hint', lambda: hint(
        o, '<raw::RawIter<T> as std::iter::Iterator>::size_hint', 'raw::RawIter', R, 'the element iterator'))
    guarded(o, 'C14', 'FullBucketsIndices::next', lambda: counted(
        o, '<raw::FullBucketsIndices as std::iter::Iterator>::next', 'raw::FullBucketsIndices', F,
        'raw::FullBucketsIndices::next_impl', 'the walk over full slots'))
    guarded(o, 'C14', 'FullBucketsIndices::size_hint', lambda: hint(
        o, '<raw::FullBucketsIndices as std::iter::Iterator>::size_hint', 'raw::FullBucketsIndices', F,
        'the walk over full slots'))
