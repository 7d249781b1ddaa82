"""C07: iterators and views of the ordered map and set.

The std iterator inside each iterator type is a run [lo, hi) of an entry
sequence: ('it', 'run', reference to the sequence, lo, hi, mode, reversed).
Each method of each iterator type is interpreted from an arbitrary run and its
result compared with the run semantics of that method, each constructor and view
with the whole (or the requested part) of the receiver's entries.
"""
import re
from terms import *
from absint import State, Undecided, Interp
from rmap import Driver, E0, N, SELF, core_in
import loops
import models
import mapcheck
import maprules

LO, HI = ('int', 'lo'), ('int', 'hi')
ITER = 'std::iter::Iterator::'
DEI = 'std::iter::DoubleEndedIterator::'
M = {}


def model(*names):
    def d(f):
        for n in names:
            old = M.get(n) or models.M.get(n)

            def g(I, st, a, c, f=f, old=old):
                r = f(I, st, a, c)
                if r is NotImplemented and old:
                    return old(I, st, a, c)
                return r
            M[n] = g
        return f
    return d


def run(ref, lo, hi, mode, rev=False):
    return ('it', 'run', ref, lo, hi, mode, rev)


def is_run(v):
    return isinstance(v, tuple) and len(v) == 7 and v[:2] == ('it', 'run')


def settle(v):
    """Iterator standing after k steps of a loop, as a run again."""
    if isinstance(v, tuple) and v and v[0] == 'itk' and is_run(v[1]):
        r, k = v[1], v[2]
        return r[:4] + (sub(r[4], k),) + r[5:] if r[6] else r[:3] + (add(r[3], k),) + r[4:]
    return v


def over(I, st, ref, mode):
    """Run over the whole sequence behind a slice reference."""
    if not (isinstance(ref, tuple) and ref and ref[0] == 'ref'):
        return None
    path = ref[2]
    if path and path[-1][0] == 'rng':
        return run(('ref', ref[1], path[:-1]), path[-1][1], path[-1][2], mode)
    return run(ref, 0, I.ref_len(st, ref), mode)


def target(I, st, ref):
    """(reference to the iterator, iterator) behind a receiver."""
    v = I.load(st, ref)
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'ref' and n < 4:
        ref, v, n = v, I.load(st, v), n + 1
    return ref, settle(v)


def item(I, st, r, i):
    e = ('ref', r[2][1], I.path_idx(r[2][2], i))
    return I.load(st, e) if r[5] == 'own' else e


def mapped(v):
    """(run, functions applied to its items)"""
    fs = []
    v = settle(v)
    while isinstance(v, tuple) and v and v[0] == 'it' and v[1] == 'map':
        fs.insert(0, v[3])
        v = settle(v[2])
    return (v, fs) if is_run(v) else (None, fs)


def apply(I, st, fs, e, c):
    out = [(st, e)]
    for f in fs:
        out = [x for s, v in out for x in I.call_value(s, c, f, [v])]
    return out


def rebuild(v, r):
    if isinstance(v, tuple) and v and v[0] == 'it' and v[1] == 'map':
        return ('it', 'map', rebuild(v[2], r), v[3])
    return r


def step(I, st, a, c, n, back):
    """Item number n from one end; the iterator continues behind it."""
    ref, v = target(I, st, a[0])
    r, fs = mapped(v)
    if r is None:
        return NotImplemented
    lo, hi = r[3], r[4]
    out = []
    for s, t in st.fork(lt(add(lo, n), hi)):
        s = s.copy()
        if t:
            i = sub(sub(hi, 1), n) if back != r[6] else add(lo, n)
            nr = r[:4] + (i,) + r[5:] if back != r[6] else r[:3] + (add(i, 1),) + r[4:]
            I.store(s, ref, rebuild(v, nr))
            out += [(s2, some(x)) for s2, x in apply(I, s, fs, item(I, s, r, i), c)]
        else:
            I.store(s, ref, rebuild(v, r[:3] + (hi,) + r[4:]))
            out.append((s, NONE))
    return out


NEXTS = [n for n in models.M if n.endswith('::next')] + [ITER + 'next']


@model(*NEXTS)
def _(I, st, a, c):
    return step(I, st, a, c, 0, False)


def names(trait, m):
    return [trait + m] + ["<std::slice::Iter<'a, T> as %s>::%s" % (trait[:-2], m),
                          "<std::slice::IterMut<'a, T> as %s>::%s" % (trait[:-2], m),
                          '<std::vec::IntoIter<T, A> as %s>::%s' % (trait[:-2], m),
                          '<std::vec::Drain<\'_, T, A> as %s>::%s' % (trait[:-2], m),
                          '<std::iter::Map<B, I, F> as %s>::%s' % (trait[:-2], m)]


@model(*names(DEI, 'next_back'))
def _(I, st, a, c):
    return step(I, st, a, c, 0, True)


@model(*names(ITER, 'nth'))
def _(I, st, a, c):
    return step(I, st, a, c, a[1], False)


@model(*names(DEI, 'nth_back'))
def _(I, st, a, c):
    return step(I, st, a, c, a[1], True)


def length(I, st, v):
    r, _ = mapped(v)
    return None if r is None else sub(r[4], r[3])


@model(*names('std::iter::ExactSizeIterator::', 'len'))
def _(I, st, a, c):
    n = length(I, st, target(I, st, a[0])[1])
    return NotImplemented if n is None else [(st, n)]


@model(*names(ITER, 'size_hint'))
def _(I, st, a, c):
    n = length(I, st, target(I, st, a[0])[1])
    return NotImplemented if n is None else [(st, tup(n, some(n)))]


@model(*names(ITER, 'count'))
def _(I, st, a, c):
    n = length(I, st, a[0])
    return NotImplemented if n is None else [(st, n)]


@model(*names(ITER, 'last'))
def _(I, st, a, c):
    v = a[0]
    r, fs = mapped(v)
    if r is None:
        return NotImplemented
    out = []
    for s, t in st.fork(lt(r[3], r[4])):
        if t:
            out += [(s2, some(x)) for s2, x in apply(I, s, fs, item(I, s, r, r[3] if r[6] else sub(r[4], 1)), c)]
        else:
            out.append((s, NONE))
    return out


@model(*names(ITER, 'collect'))
def _(I, st, a, c):
    r, _ = mapped(a[0])
    return NotImplemented if r is None else [(st, ('collected', a[0]))]


@model(*names(ITER, 'rev'))
def _(I, st, a, c):
    v = settle(a[0])
    return [(st, v[:6] + (not v[6],))] if is_run(v) else NotImplemented


def part(left):
    def f(I, st, a, c):
        r = settle(a[0])
        if not is_run(r) or r[6]:
            return NotImplemented
        out = []
        for s, t in st.fork(le(add(r[3], a[1]), r[4])):
            cut = add(r[3], a[1]) if t else r[4]
            out.append((s, r[:4] + (cut,) + r[5:] if left else r[:3] + (cut,) + r[4:]))
        return out
    return f


model(*names(ITER, 'take'))(part(True))
model(*names(ITER, 'skip'))(part(False))


@model('std::clone::Clone::clone', *["<std::slice::Iter<'_, T> as std::clone::Clone>::clone",
                                     '<std::vec::IntoIter<T, A> as std::clone::Clone>::clone'])
def _(I, st, a, c):
    v = settle(I.load(st, a[0]))
    return [(st, v)] if is_run(v) else NotImplemented


def rest(I, st, a, c):
    v = settle(a[0])
    if isinstance(v, tuple) and v and v[0] == 'ref':
        v = target(I, st, v)[1]
    if not is_run(v):
        return NotImplemented
    return [(st, ('ref', v[2][1], I.path_rng(v[2][2], v[3], v[4])))]


model('std::slice::Iter::as_slice', 'std::slice::IterMut::as_slice', 'std::slice::IterMut::into_slice',
      'std::vec::IntoIter::as_slice', 'std::vec::IntoIter::as_mut_slice', 'std::vec::Drain::as_slice')(rest)


def creator(mode):
    def f(I, st, a, c):
        r = over(I, st, a[0], mode)
        return NotImplemented if r is None else [(st, r)]
    return f


model('core::slice::<impl [T]>::iter', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
      "std::vec::<impl std::iter::IntoIterator for &'a std::vec::Vec<T, A>>::into_iter")(creator('ref'))
model('core::slice::<impl [T]>::iter_mut',
      "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
      "std::vec::<impl std::iter::IntoIterator for &'a mut std::vec::Vec<T, A>>::into_iter")(creator('mut'))


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def _(I, st, a, c):
    v = a[0]
    if isinstance(v, tuple) and v and v[0] == 'val':
        v = v[1]
    if not (isinstance(v, tuple) and v and v[0] == 'seq'):
        return NotImplemented
    st = st.copy()
    I.uid += 1
    root = ('O', ('vec', I.uid))
    st.mem[root] = v
    return [(st, run(('ref', root, ()), 0, I.seq_len(v), 'own'))]


@model('std::slice::<impl [T]>::to_vec', '<std::boxed::Box<[T]> as std::convert::From<&[T]>>::from',
       'std::boxed::convert::<impl std::convert::From<&[T]> for std::boxed::Box<[T]>>::from')
def _(I, st, a, c):
    v = I.load(st, a[0]) if isinstance(a[0], tuple) and a[0] and a[0][0] == 'ref' else a[0]
    return [(st, v)]


# ---------------------------------------------------------------- rules
KEY, VAL, PAIR = ('key',), ('value',), ('key', 'value')
VIEW = {'Iter': PAIR, 'IterMut': PAIR, 'IntoIter': PAIR, 'Drain': PAIR, 'Keys': KEY, 'IntoKeys': KEY,
        'Values': VAL, 'ValuesMut': VAL, 'IntoValues': VAL}
MODE = {'Iter': 'ref', 'Keys': 'ref', 'Values': 'ref', 'IterMut': 'mut', 'ValuesMut': 'mut',
        'IntoIter': 'own', 'IntoKeys': 'own', 'IntoValues': 'own', 'Drain': 'own'}


def iter_type(ty):
    m = re.match(r'(map|set)::iter::(\w+)', ty)
    if m and m.group(2) in VIEW:
        return m.group(2), KEY if m.group(1) == 'set' else VIEW[m.group(2)]
    return None


def strip(I, st, v):
    n = 0
    while isinstance(v, tuple) and v and v[0] in ('ref', 'val') and n < 6:
        v = I.load(st, v) if v[0] == 'ref' else v[1]
        n += 1
    return v


def shown(I, st, got, i, view):
    """Does `got` present entry i of the receiver?"""
    if view == PAIR:
        if not (is_agg(got, '()') and len(got[4]) == 2):
            return False
        parts = [x for _, x in got[4]]
    else:
        parts = [got]
    return all(same(I, st, strip(I, st, p), ('fld', ('elem', E0, i), f)) for p, f in zip(parts, view))


def same(I, st, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and a[0] == b[0]:
        if a[0] == 'fld':
            return a[2] == b[2] and same(I, st, a[1], b[1])
        if a[0] == 'elem':
            return a[1] == b[1] and st.ord.feasible([neg(eq(a[2], b[2]))]) is False
    return False


def differs(st, a, b):
    return st.ord.feasible([neg(eq(a, b))]) is not False


def span(I, st, v, lo, hi):
    """Is v (slice, vector or run, possibly boxed) the entries lo..hi of the receiver?"""
    v = settle(v)
    if is_run(v):
        if v[6]:
            return False
        w = ('ref', v[2][1], I.path_rng(v[2][2], v[3], v[4]))
    else:
        w = v
    if isinstance(w, tuple) and w and w[0] == 'val':
        w = w[1]
    n = 0
    while isinstance(w, tuple) and w and w[0] == 'ref' and n < 6:
        path = w[2]
        if path and path[-1][0] == 'rng':
            seq = I.read(st, w[1], path[:-1])
            if seq == ('seq', (('sub', E0, 0, N),)):
                return not differs(st, path[-1][1], lo) and not differs(st, path[-1][2], hi) \
                    or not differs(st, lo, hi) and not differs(st, path[-1][1], path[-1][2])
        w = I.load(st, w)
        n += 1
    if isinstance(w, tuple) and w and w[0] == 'slice' and w[1] == ('seq', (('sub', E0, 0, N),)):
        return not differs(st, w[2], lo) and not differs(st, w[3], hi)
    if isinstance(w, tuple) and w and w[0] == 'seq':
        return maprules.seqs_differ(I, st, w[1], (('sub', E0, lo, hi),), ('key', 'value', 'hash')) is None
    return None


class Out:
    def __init__(self):
        self.viol, self.undecided, self.done, self.fns, self.exits = [], [], {}, set(), 0
        self.unm = set()

    def bad(self, rule, op, msg, f):
        v = (rule, op, msg, f['file'])
        if v not in self.viol:
            self.viol.append(v)


def interp(prog):
    I = Interp(prog, {**models.M, **models.TABLE, **M}, budget=60000)
    D = Driver(prog)
    base = D.interp()
    I.loop_invariant = base.loop_invariant
    I.coherence = None
    return I


def inner_of(v, ty, fields):
    """Value of an iterator type around the run."""
    return agg(ty, 0, ty.rsplit('::', 1)[-1], [(f, v) for f in fields])


def method(prog, op, f, O):
    """One method of one iterator type, from an arbitrary run."""
    crate = f['crate']
    ty = crate.ty(f['locals'][1][0]) if f['argc'] else None
    name = op.rsplit('::', 1)[-1]
    ret_ty = crate.ty(f['locals'][0][0])['s']
    I = interp(prog)
    st = State()
    st.mem[SELF] = ('seq', (('sub', E0, 0, N),))
    for c in (le(0, LO), le(LO, HI), le(HI, N)):
        st.ord.assume(c)
    args, recv = [], None
    it, view = iter_type(op)
    if ty is not None:
        inner = crate.ty(ty['t']) if ty['k'] == 'ref' else ty
        path = inner['s'].split('<')[0]
        adt = crate.adts.get(path)
        flds = [x[0] for x in adt['variants'][0][1]] if adt else ['iter']
        if iter_type(path) is None or len(flds) != 1:
            raise Undecided('receiver')
        v = inner_of(run(('ref', SELF, ()), LO, HI, MODE[it]), path, flds)
        if ty['k'] == 'ref':
            recv = ('O', 'it')
            st.mem[recv] = v
            args.append(('ref', recv, ()))
        else:
            args.append(v)
    for i in range(2, f['argc'] + 1):
        args.append(('int', i))
        st.ord.assume(le(0, ('int', i)))
    if I.prog is not prog:
        raise Undecided('program')
    res = I.call_fn(st, f, args, 0)
    O.fns |= I.visited
    O.unm |= set(I.unmodelled)
    n = ('int', 2)
    for s, v in res:
        if s.ord.feasible() is False:
            continue
        O.exits += 1
        after = None
        if recv is not None and is_agg(s.mem.get(recv)):
            after = settle(s.mem[recv][4][0][1])

        def left(lo, hi):
            if after is None:
                return True
            return is_run(after) and not differs(s, after[3], lo) and not differs(s, after[4], hi)

        def gone():
            return after is None or is_run(after) and not differs(s, after[3], after[4])

        def item_rule(k, i, behind):
            """Item number k from one end, if there is one."""
            inside = lt(add(LO, k), HI)
            if s.ord.feasible([inside]) is not False:
                t = s.copy()
                t.ord.assume(inside)
                if is_agg(v) and v[3] == 'None':
                    O.bad('step', op, 'ends although entries are left', f)
                elif is_agg(v) and v[3] == 'Some':
                    if not shown(I, t, v[4][0][1], i, view):
                        O.bad('step', op, 'presents something other than the entry whose turn it is', f)
                    elif after is not None and not (is_run(after) and not differs(t, after[3], behind[0])
                                                    and not differs(t, after[4], behind[1])):
                        O.bad('step', op, 'does not continue with the entries behind the one presented', f)
                else:
                    raise Undecided('result')
            if s.ord.feasible([neg(inside)]) is not False:
                t = s.copy()
                t.ord.assume(neg(inside))
                if not (is_agg(v) and v[3] == 'None'):
                    O.bad('step', op, 'presents an entry where none is left', f)
                elif after is not None and not (is_run(after) and not differs(t, after[3], after[4])):
                    O.bad('step', op, 'entries left after the end was reported', f)
        O.done.setdefault(op, 0)
        O.done[op] += 1
        if name == 'next':
            item_rule(0, LO, (add(LO, 1), HI))
        elif name == 'next_back':
            item_rule(0, sub(HI, 1), (LO, sub(HI, 1)))
        elif name == 'nth':
            item_rule(n, add(LO, n), (add(add(LO, n), 1), HI))
        elif name == 'nth_back':
            i = sub(sub(HI, 1), n)
            item_rule(n, i, (LO, i))
        elif name == 'last':
            item_rule(0, sub(HI, 1), (LO, HI))
        elif name in ('len', 'count'):
            if not isinstance(v, (tuple, int)) or differs(s, v, sub(HI, LO)):
                O.bad('length', op, 'reports a length other than the number of entries left', f)
        elif name == 'size_hint':
            m = sub(HI, LO)
            good = is_agg(v, '()') and len(v[4]) == 2 and not differs(s, v[4][0][1], m)
            up = v[4][1][1] if good else None
            if not (good and is_agg(up) and up[3] == 'Some' and not differs(s, up[4][0][1], m)):
                O.bad('length', op, 'reports bounds other than the number of entries left', f)
        elif name == 'collect':
            if not (isinstance(v, tuple) and v and v[0] == 'collected'):
                O.bad('step', op, 'does not collect the entries that are left', f)
                continue
            r, fs = mapped(v[1])
            k = I.fresh('k')
            t = s.copy()
            t.ord.assume(le(LO, k))
            t.ord.assume(lt(k, HI))
            c = _ctx(I, f)
            if r[6] or differs(s, r[3], LO) or differs(s, r[4], HI):
                O.bad('step', op, 'does not collect exactly the entries that are left, in order', f)
            elif t.ord.feasible() is not False:
                for t2, x in apply(I, t, fs, item(I, t, r, k), c):
                    if not shown(I, t2, x, k, view):
                        O.bad('step', op, 'collects something other than the entries that are left', f)
        elif name in ('as_slice', 'as_mut_slice', 'into_slice'):
            if span(I, s, v, LO, HI) is False:
                O.bad('view', op, 'shows something other than the entries that are left', f)
        elif name == 'clone':
            w = settle(v[4][0][1]) if is_agg(v) and v[4] else None
            if not is_run(w):
                raise Undecided('clone')
            if w[6] or differs(s, w[3], LO) or differs(s, w[4], HI) or w[2] != ('ref', SELF, ()):
                O.bad('step', op, 'the copy does not stand where the original stands', f)
        elif name == 'index':
            if s.ord.feasible([neg(lt(add(LO, n), HI))]) is not False or \
                    not same(I, s, strip(I, s, v), ('fld', ('elem', E0, add(LO, n)), view[0])):
                O.bad('view', op, 'shows something other than the entry at that position', f)
        elif name == 'default':
            w = settle(v[4][0][1]) if is_agg(v) and v[4] else None
            if is_run(w) and differs(s, w[3], w[4]):
                O.bad('length', op, 'an iterator over nothing is not empty', f)
        else:
            O.done.pop(op)
            raise Undecided('no rule for this method')
        if name in ('len', 'size_hint', 'as_slice', 'as_mut_slice', 'clone', 'index') and not left(LO, HI):
            O.bad('step', op, 'moves although it only looks', f)


def _ctx(I, f):
    class C:
        pass
    c = C()
    c.I, c.fn, c.line, c.dest_ty = I, f, f['line'], None
    c.callee = {'path': '<rule>', 'fn': '<rule>', 'args': []}

    class F:
        depth = 1
        fn = f
    c.fr = F()
    return c


RANGES = {'std::ops::Range<usize>': ('Range', ('start', 'end')), 'std::ops::RangeFrom<usize>': ('RangeFrom', ('start',)),
          'std::ops::RangeFull': ('RangeFull', ()), 'std::ops::RangeTo<usize>': ('RangeTo', ('end',)),
          'std::ops::RangeToInclusive<usize>': ('RangeToInclusive', ('end',)),
          'std::ops::RangeInclusive<usize>': ('RangeInclusive', ('start', 'end', 'exhausted'))}


def view(prog, op, f, form, O):
    """A constructor of an iterator or a view: the whole receiver, or the asked part of it."""
    D = Driver(prog)
    crate = f['crate']
    ret = crate.ty(f['locals'][0][0])
    I = interp(prog)
    st, args = D.inputs(f, form)
    lo, hi = 0, N
    if BOXED.match(crate.ty(f['locals'][1][0])['s']):
        args[0] = ('seq', (('sub', E0, 0, N),))
    elif f['argc'] and BOXED.match(crate.ty(crate.ty(f['locals'][1][0]).get('t', f['locals'][1][0]))['s']):
        st.mem[SELF] = ('seq', (('sub', E0, 0, N),))
        st.mem[('O', 'box')] = agg('std::boxed::Box', 0, 'Box', [('0', ('ref', SELF, ()))])
        args[0] = ('ref', ('O', 'box'), ())
    for i in range(2, f['argc'] + 1):
        t = crate.ty(f['locals'][i][0])['s']
        if t in RANGES:
            nm, fs = RANGES[t]
            A, B = ('int', 'start'), ('int', 'end')
            st.ord.assume(le(0, A))
            st.ord.assume(le(0, B))
            args[i - 1] = agg('std::ops::' + nm, 0, nm, [(x, {'start': A, 'end': B}.get(x, FALSE)) for x in fs])
            if 'start' in fs:
                lo = A
            if 'end' in fs:
                hi = add(B, 1) if 'Inclusive' in nm else B
        else:
            return False
    res = I.call_fn(st, f, args, 0)
    O.fns |= I.visited
    O.unm |= set(I.unmodelled)
    for s, v in res:
        if s.ord.feasible() is False:
            continue
        O.exits += 1
        O.done[op] = O.done.get(op, 0) + 1
        r = ret['s']
        it = iter_type(r)
        if it:
            w = v[4][0][1] if is_agg(v) and v[4] else v
            ok_ = span(I, s, w, lo, hi)
            if ok_ is None:
                raise Undecided('iterator value')
            if is_run(settle(w)) and settle(w)[6]:
                ok_ = False
            if not ok_:
                O.bad('whole', op, 'does not go over all entries from first to last', f)
        else:
            ok_ = span(I, s, v, lo, hi)
            if ok_ is None:
                raise Undecided('view value')
            if not ok_:
                O.bad('view', op, 'shows something other than the entries asked for', f)
        if args and isinstance(args[0], tuple) and args[0] and args[0][0] == 'ref':
            for c in core_in(s.mem.get(SELF)):
                if maprules.seqs_differ(I, s, fget(c, 'entries')[1], (('sub', E0, 0, N),), ('key', 'value', 'hash')):
                    O.bad('view', op, 'changes the entries', f)
    return True


SLICE = re.compile(r'^(&mut |&\'?\w* ?(mut )?)?(std::boxed::Box<)?(map|set)::slice::Slice<')
BOXED = re.compile(r'std::boxed::Box<((map|set)::slice::Slice)<')
SKIP = {'get_range', 'get_range_mut', 'split_at', 'split_at_mut', 'new', 'new_mut', 'default'}


def receiver(f):
    a = Driver.receiver(None, f)
    if a is None and f['argc']:
        t = f['crate'].ty(f['locals'][1][0])
        for u in (t, f['crate'].ty(t['t']) if t['k'] == 'ref' else t):
            m = BOXED.match(u['s'])
            if m:
                return m.group(1)
    return a


def c07(prog):
    O = Out()
    for op, f in sorted(mapcheck.public_ops(prog, ('',)), key=lambda x: (x[0], x[1]['line'])):
        name = op.rsplit('::', 1)[-1]
        try:
            if re.match(r'(map|set)::iter::\w+( as [^:]*(<.*>)?)?::\w+$', op) and iter_type(op):
                method(prog, op, f, O)
                continue
            ret = f['crate'].ty(f['locals'][0][0])
            rs = f['crate'].ty(ret['t'])['s'] if ret['k'] == 'ref' else ret['s']
            if name in SKIP or name == 'drain' or not receiver(f):
                continue
            if iter_type(rs) or SLICE.match(rs):
                D = Driver(prog)
                for form in D.forms(f):
                    view(prog, op, f, form, O)
        except Undecided as e:
            O.undecided.append((op, str(e)))
    return O


if __name__ == '__main__':
    import sys
    from mir import Program
    sys.setrecursionlimit(10000)
    O = c07(Program(sys.argv[1], ['rubymap', 'ruby_traits', 'hashbrown']))
    for v in O.viol:
        print(v)
    print(O.undecided, O.unm)
    print(len(O.done), sum(O.done.values()), O.exits)
    print([k for k, v in O.done.items() if not v])
