"""C06: several entries lent mutably at once.

The requested positions are an array of symbolic length.  At every successful
exit a full scan of that array must have shown, for a generic position k of it,
that the position is in range and differs from the positions before it (or from
all others); the entry lent for k must be the one at that position.
"""
from terms import *
from absint import State, Undecided
from rmap import Driver, E0, N, SELF
import loops
import models
import mapview

NN = ('const', 'N')
ARR = ('arr',)
M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def elements(I, st, v, k):
    """[(state, element k)] of an array value."""
    if isinstance(v, tuple) and v and v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'sub' \
            and v[1][0][1][0] == 'alts':
        _, k0, alts = v[1][0][1]
        out = []
        for delta, val in alts:
            s = st.copy()
            for t, i in delta:
                t = subst(t, {k0: k})
                if s.variants.get(t, i) != i:
                    break
                s.variants[t] = i
            else:
                out.append((s, subst(val, {k0: k})))
        return out
    return [(st, I.seq_get(st, v, k))]


@model('std::array::<impl [T; N]>::map')
def _(I, st, a, c):
    k = I.fresh('m')
    s = st.copy()
    if not (s.ord.assume(le(0, k)) and s.ord.assume(lt(k, NN))):
        return [(st, ('seq', ()))]
    alts = []
    for s1, e in elements(I, s, a[0], k):
        for s2, v in I.call_value(s1, c, a[1], [e]):
            delta = tuple(sorted(((t, i) for t, i in s2.variants.items() if st.variants.get(t) != i), key=repr))
            alts.append((delta, v))
            # what the closure itself established
            I.lent.append((s2, k, v))
    if not alts:
        raise Undecided('array map')
    if len(alts) == 1 and not alts[0][0]:
        base = ('mapped', k, alts[0][1])
    else:
        base = ('alts', k, tuple(alts))
    return [(st, ('seq', (('sub', base, 0, NN),)))]


@model('core::slice::<impl [T]>::contains')
def _(I, st, a, c):
    r, x = a[0], I.load(st, a[1])
    if r[2] and r[2][-1][0] == 'rng':
        seq, lo, hi = I.read(st, r[1], r[2][:-1]), r[2][-1][1], r[2][-1][2]
    else:
        seq = I.load(st, r)
        lo, hi = 0, I.seq_len(seq)
    return [(st, ('contains', seq, lo, hi, x))]


@model('core::slice::<impl [T]>::as_mut_ptr', 'core::slice::<impl [T]>::as_ptr')
def _(I, st, a, c):
    return [(st, a[0])]


@model('std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::mut_ptr::<impl *mut T>::offset',
       'std::ptr::mut_ptr::<impl *mut T>::wrapping_add')
def _(I, st, a, c):
    return [(st, ('ref', a[0][1], I.path_idx(a[0][2], a[1])))]


@model('map::RubyMap::get_index_of')
def _(I, st, a, c):
    key = I.load(st, a[1]) if isinstance(a[1], tuple) and a[1][0] == 'ref' else a[1]
    k = st.ordinal(('get_index_of', key))
    t = ('found', key, k)
    out = []
    s = st.copy()
    I.event(s, c.fr, 'get_index_of', [], c.line, ('uerr', t), 'user-err')
    out.append((s, err(('uerr', t))))
    s = st.copy()
    s.variants[t] = 0
    out.append((s, ok(NONE)))
    s = st.copy()
    i = ('pos', key)
    s.ord.assume(le(0, i))
    s.ord.assume(lt(i, N))
    s.variants[t] = 1
    out.append((s, ok(some(i))))
    return out


def position(e):
    """Requested position behind an element of the array of requests."""
    if is_agg(e):
        return e[4][0][1] if e[3] == 'Some' else None
    if isinstance(e, tuple) and e[:2] == ('elem', ARR):
        return e
    return ('fld', ('as', e, 'Some'), '0')


def is_none(o_variants, e):
    if is_agg(e):
        return e[3] == 'None'
    return o_variants.get(e) == 0


def distinct(I, c, k, seq, e):
    """Did iteration k show that request e differs from those before (or after, or all others)?"""
    p = position(e)
    for t, val in c.ord.facts.items():
        if val is False and isinstance(t, tuple) and t and t[0] == 'contains' \
                and position(I.seq_get(c, t[1], k)) == p and position(t[4]) == p:
            lo, hi = t[2], t[3]
            if c.ord.proves(le(lo, 0)) and c.ord.proves(le(k, hi)):
                return True
            if c.ord.proves(le(lo, add(k, 1))) and c.ord.proves(le(NN, hi)):
                return True
    for t in c.trace:
        if t[0] != 'conts':
            continue
        _, j, n, conts, s1 = t
        if not c.ord.proves(le(k, n)) or not conts:
            continue
        if all(apart(I, x, seq, j, k, e) for x in conts):
            return True
    return False


def apart(I, x, seq, j, k, e):
    ej = I.seq_get(x, seq, j)
    if is_none(x.variants, ej):
        return True
    a, b = position(ej), position(e)
    if a is not None and b is not None and x.ord.feasible([eq(a, b)]) is False:
        return True
    return any(v is False and isinstance(t, tuple) and t and t[0] == 'eqv'
               and {position(t[1]), position(t[2])} == {a, b} for t, v in x.ord.facts.items())


class Out(mapview.Out):
    pass


def judge(I, op, f, s, ret, seq, req, O, view, opt):
    """One exit of a lending operation. `seq`: array of requests; `req`: key terms or None."""
    O.done[op] = O.done.get(op, 0) + 1
    scans = [t for t in s.trace if t[0] == 'conts']
    if is_agg(ret) and ret[3] == 'Err':
        e = ret[4][0][1]
        if isinstance(e, tuple) and e and e[0] == 'uerr':
            return
        if not is_agg(e):
            raise Undecided('error value')
        if e[3] == 'IndexOutOfBounds' and not out_of_range(s, seq):
            O.bad('refuse', op, 'reports a position as out of range that is not', f)
        if e[3] == 'OverlappingIndices' and not overlapping(s, seq):
            O.bad('refuse', op, 'reports positions as overlapping that are not', f)
        return
    if not (is_agg(ret) and ret[3] == 'Ok'):
        raise Undecided('result')
    bounded = distinct_ = False
    for _, k, n, conts, s1 in scans:
        if s.ord.feasible([neg(eq(n, NN))]) is not False or not conts:
            continue
        b = d = True
        for c in conts:
            e = I.seq_get(c, seq, k)
            if is_none(c.variants, e):
                continue
            p = position(e)
            b = b and p is not None and c.ord.feasible([neg(lt(p, N))]) is False
            d = d and distinct(I, c, k, seq, e)
        bounded, distinct_ = bounded or b, distinct_ or d
    none = s.ord.feasible([lt(0, NN)]) is False
    if not none and not bounded:
        O.bad('range', op, 'lends entries without having shown every requested position to be in range', f)
    if not none and not distinct_:
        O.bad('apart', op, 'lends entries without having shown all requested positions to be different', f)
    # the right entries
    out = ret[4][0][1]
    k = I.fresh('q')
    t = s.copy()
    if not (t.ord.assume(le(0, k)) and t.ord.assume(lt(k, NN))) or t.ord.feasible() is False:
        return
    for t1, g in elements(I, t, out, k):
        e = I.seq_get(t1, seq, k)
        absent = is_none(t1.variants, e)
        if opt:
            if absent:
                if not (is_agg(g) and g[3] == 'None'):
                    O.bad('entry', op, 'lends an entry for a key that is absent', f)
                continue
            if not (is_agg(g) and g[3] == 'Some'):
                O.bad('entry', op, 'lends nothing for a key that is present', f)
                continue
            g = g[4][0][1]
        p = position(e)
        s2 = t1.copy()
        s2.ord.assume(le(0, p))
        s2.ord.assume(lt(p, N))
        if not mapview.shown(I, s2, g, p, view):
            O.bad('entry', op, 'lends an entry other than the one at the requested position', f)


def out_of_range(s, seq):
    """Some request is known to be out of range on this exit."""
    for q in terms_of(s):
        if isinstance(q, tuple) and q and (q[0] == 'elem' or q[0] == 'fld') and mentions(q, seq_base(seq)) \
                and s.ord.feasible([lt(q, N)]) is False:
            return True
    return False


def overlapping(s, seq):
    for t, v in s.ord.facts.items():
        if v is True and isinstance(t, tuple) and t and t[0] in ('contains', 'eqv'):
            if t[0] == 'eqv':
                i, j = index_of(position(t[1])), index_of(position(t[2]))
                if i is not None and j is not None and s.ord.feasible([eq(i, j)]) is False:
                    return True
                continue
            # the part searched must not contain the request itself
            x = t[4]
            x = x[4][0][1] if is_agg(x) else x
            k = index_of(x)
            if k is not None and (s.ord.proves(le(t[3], k)) or s.ord.proves(lt(k, t[2]))):
                return True
    for a in list(terms_of(s)):
        for b in list(terms_of(s)):
            if a != b and isinstance(a, tuple) and isinstance(b, tuple) and mentions(a, seq_base(seq)) \
                    and mentions(b, seq_base(seq)) and s.ord.feasible([neg(eq(a, b))]) is False:
                return True
    return False


def index_of(x):
    """Index in the array of requests of a position term."""
    while isinstance(x, tuple) and x and x[0] in ('fld', 'as'):
        x = x[1]
    if isinstance(x, tuple) and x and x[0] == 'elem':
        return x[2]
    return None


def seq_base(seq):
    return ARR


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def terms_of(s):
    out = set()
    for c, d in list(s.ord.le) + [(0, dict(lin(q)[1])) for q in getattr(s.ord, 'ne', [])]:
        out |= set(d)
    return out


def run_one(prog, op, f, form, O):
    crate = f['crate']
    D = Driver(prog)
    I = mapview.interp(prog)
    I.models = {**I.models, **M}
    I.lent = []
    st, args = D.inputs(f, form)
    st.ord.assume(le(0, NN))
    keys = None
    seq = None
    for i in range(2, f['argc'] + 1):
        t = crate.ty(f['locals'][i][0])
        if t['k'] == 'seq' and t['s'].endswith('; N]'):
            seq = ('seq', (('sub', ARR, 0, NN),))
            args[i - 1] = seq
            if '&' in t['s']:
                keys = seq
    if seq is None:
        return False
    opt = 'Option<' in crate.ty(f['locals'][0][0])['s']
    view = ('key', 'value') if '(&' in crate.ty(f['locals'][0][0])['s'] else ('value',)
    np = len(I.panics)
    res = I.call_fn(st, f, args, 0)
    O.fns |= I.visited
    O.unm |= set(I.unmodelled)
    for s, v in res:
        if s.ord.feasible() is False:
            continue
        O.exits += 1
        if keys is None:
            judge(I, op, f, s, v, seq, None, O, view, opt)
        else:
            by_key(I, op, f, s, v, seq, O, view)
    if keys is None:
        for ps, what, pf, line in I.panics[np:]:
            if ps.ord.feasible() is not False:
                O.bad('refuse', op, 'panics in %s instead of reporting the request' % pf['path'].rsplit('::', 1)[-1], f)
    return True


def by_key(I, op, f, s, v, seq, O, view):
    """The requests are found by key; the scan ranges over the positions found."""
    if is_agg(v) and v[3] == 'Err':
        e = v[4][0][1]
        O.done[op] = O.done.get(op, 0) + 1
        if not (isinstance(e, tuple) and e and e[0] == 'uerr'):
            O.bad('refuse', op, 'fails with something other than the error of the lookup', f)
        return
    # the array the positions were stored into
    fill = None
    for t in s.trace:
        if t[0] != 'conts' or not t[3]:
            continue
        _, k, n, conts, s1 = t
        for root in s1.mem:
            w = [c.mem.get(root) for c in conts]
            if all(isinstance(x, tuple) and x and x[0] == 'store' for x in w):
                fill = (k, n, root, [(c, x) for c, x in zip(conts, w)])
    if fill is None:
        raise Undecided('positions of the keys')
    k, n, root, stores = fill
    if s.ord.feasible([neg(eq(n, NN))]) is not False:
        O.bad('entry', op, 'not every key is looked up', f)
    for c, x in stores:
        want = ('elem', ARR, x[2])
        val = x[3]
        key = val[4][0][1][1] if is_agg(val) and val[3] == 'Some' else None
        found = [t for t in c.variants if isinstance(t, tuple) and t and t[0] == 'found']
        if is_agg(val) and val[3] == 'None':
            good = any(c.variants[t] == 0 and strip(t[1]) == want for t in found)
        else:
            good = isinstance(key, tuple) and strip(key) == want
        if not good:
            O.bad('entry', op, 'a position is recorded for a key other than the one it was found for', f)
    # lending itself: judged on the positions as an arbitrary array
    hv = s.mem.get(root)
    used = [t for t in s.trace if t[0] == 'conts' and t[1] != k]
    if not used:
        O.bad('apart', op, 'lends entries without having shown all requested positions to be different', f)
        return
    for t in used:
        for x in t[3]:
            for q in x.variants:
                if isinstance(q, tuple) and q and q[0] == 'elem' and q[2] == t[1]:
                    s.ord.assume(eq(('len', q[1]), NN))
                    judge(I, op, f, s, v, q[1], None, O, view, True)
                    return
    raise Undecided('scan of the positions')


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('load', '&', 'val'):
        t = t[1]
    return t


def c06(prog):
    O = Out()
    for f in sorted(prog.fns.values(), key=lambda f: f['fn']):
        if '{closure' in f['fn'] or 'disjoint' not in f['path'] or f.get('vis') != 'Public' \
                or f['path'].rsplit('::', 1)[-1] == 'is_disjoint':
            continue
        import mapcheck
        op = mapcheck.opname(f)
        for form in Driver(prog).forms(f):
            try:
                run_one(prog, op, f, form, O)
            except Undecided as e:
                O.undecided.append((op, str(e)))
    return O


if __name__ == '__main__':
    import sys
    from mir import Program
    sys.setrecursionlimit(10000)
    O = c06(Program(sys.argv[1], ['rubymap', 'ruby_traits', 'hashbrown']))
    for v in O.viol:
        print(v)
    print(O.undecided, O.unm)
    print(O.done, O.exits)
