"""C08: comparisons of two containers, and bulk insertion.

A verdict about two containers is a statement about every element.  `true` exits
must follow a completed scan of the right container in which the generic element
was found (or not found) in the other one; `false` exits must carry a witness.
Lookups are taken as C03 specifies them.
"""
import mapcheck
import models
from terms import *
from absint import Undecided
from rmap import Driver, CORE

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def entries_base(I, st, v):
    """Entry sequence of the map or set value v."""
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'ref' and n < 6:
        v, n = I.load(st, v), n + 1
    while is_agg(v) and not is_agg(v, CORE):
        names = [x for x, _ in v[4]]
        if 'map' in names:
            v = fget(v, 'map')
        elif 'core' in names:
            v = fget(v, 'core')
        else:
            return None
    if is_agg(v, CORE):
        e = fget(v, 'entries')
        while is_agg(e):
            e = fget(e, 'entries')
        if isinstance(e, tuple) and e[0] == 'seq' and len(e[1]) == 1 and e[1][0][0] == 'sub':
            return e[1][0][1]
    return None


def lookup(keyarg):
    def f(I, st, a, c):
        b = entries_base(I, st, a[0])
        if b is None:
            return NotImplemented
        key = models.deref(I, st, a[keyarg])
        t = ('found', b, key)
        s = st.copy()
        p = ('lookuperr', b, key)
        I.event(s, c.fr, 'lookup', (key,), c.line, p, 'user-err')
        out = [(s, err(p))]
        if st.variants.get(t) != 1:
            s = st.copy()
            s.variants[t] = 0
            out.append((s, ok(NONE)))
        if st.variants.get(t) != 0:
            s = st.copy()
            i = ('pos', b, key)
            s.ord.assume(le(0, i))
            s.ord.assume(lt(i, ('len', b)))
            s.variants[t] = 1
            out.append((s, ok(some(i))))
        return out
    return f


M['map::RubyMap::get_index_of'] = lookup(1)
M['map::core::IndexMapCore::get_index_of'] = lookup(2)


@model('map::RubyMap::insert', 'map::RubyMap::insert_full')
def _(I, st, a, c):
    k = st.ordinal('insert')
    p = ('inserterr', k, a[1])
    s = st.copy()
    I.event(s, c.fr, 'insert', (a[1],), c.line, p, 'user-err')
    out = [(s, err(p))]
    s = st.copy()
    s.trace.append(('inserted', a[0], a[1], a[2]))
    r = ('replaced', k, a[1])
    out.append((s, ok(tup(('pos', k), r) if c.path.endswith('insert_full') else r)))
    return out


@model('map::RubyMap::reserve', 'map::core::IndexMapCore::reserve')
def _(I, st, a, c):
    return [(st, UNIT)]


@model('map::RubyMap::drain')
def _(I, st, a, c):
    b = entries_base(I, st, a[0])
    if b is None:
        return NotImplemented
    s = st.copy()
    p = ('drainerr', b)
    I.event(s, c.fr, 'drain', (), c.line, p, 'user-err')
    return [(s, err(p)), (st, ok(('it', 'opaque', ('drained', b, a[1]))))]


@model('std::iter::IntoIterator::into_iter')
def _(I, st, a, c):
    if isinstance(a[0], tuple) and a[0] and a[0][0] in ('in', 'call'):
        return [(st, ('it', 'opaque', a[0]))]
    if isinstance(a[0], tuple) and a[0] and a[0][0] == 'it':
        return [(st, a[0])]
    return NotImplemented


@model('std::iter::Iterator::size_hint')
def _(I, st, a, c):
    v = models.deref(I, st, a[0])
    return [(st, tup(('hint', v), ('hintmax', v)))]


@model('std::iter::Iterator::cmp', 'std::iter::Iterator::partial_cmp', 'std::iter::Iterator::eq',
       'std::iter::Iterator::lt')
def _(I, st, a, c):
    return [(st, ('itcmp', c.path.rsplit('::', 1)[-1], whole(I, st, a[0]), whole(I, st, a[1])))]


def whole(I, st, v):
    """Sequence base an iterator or container presents from start to end, or None."""
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'ref' and n < 6:
        w = I.load(st, v)
        if isinstance(w, tuple) and w and w[0] == 'in':
            return w
        v, n = w, n + 1
    while is_agg(v) and len(v[4]) == 1:
        v = v[4][0][1]
    if isinstance(v, tuple) and v[:2] == ('it', 'slice'):
        v = I.load(st, v[2])
    if isinstance(v, tuple) and v and v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'sub' and v[1][0][2] == 0 \
            and v[1][0][3] == ('len', v[1][0][1]):
        return v[1][0][1]
    return v if isinstance(v, tuple) and v and v[0] == 'in' else None


class Out:
    def __init__(self):
        self.viol, self.undecided, self.done, self.exits, self.fns, self.unm = [], [], {}, 0, set(), set()
        self.scans = 0

    def bad(self, rule, op, msg, f):
        t = (rule, op, msg, f['file'])
        if t not in self.viol:
            self.viol.append(t)


# ------------------------------------------------------------- evidence in a state
def elem_of(t, A):
    """(index, field) if t is a field of an element of A (field '' for the element itself)."""
    f = ''
    if isinstance(t, tuple) and t and t[0] == 'fld':
        f, t = t[2], t[1]
    if isinstance(t, tuple) and t[:2] == ('elem', A):
        return t[2], f
    return None


def at(s, idx, k, n):
    """Is idx the position visited in step k of n (either direction)?"""
    return idx == k or s.ord.proves(eq(idx, k)) or sub(sub(n, 1), k) == idx


def found(s, A, B):
    """{index: 0/1} membership in B established for elements of A."""
    out = {}
    for t, v in s.variants.items():
        if isinstance(t, tuple) and t[:2] == ('found', B):
            e = elem_of(t[2], A)
            if e and e[1] in ('key', ''):
                out[e[0]] = v
    return out


def values(s, A, B):
    """{index: bool} verdicts comparing the value at an element of A with the value found in B."""
    out = {}
    for t, v in s.ord.facts.items():
        if isinstance(t, tuple) and t and t[0] == 'eqv':
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                e, g = elem_of(x, A), elem_of(y, B)
                if e and g and e[1] == g[1] == 'value' and isinstance(g[0], tuple) and g[0][:2] == ('pos', B) \
                        and elem_of(g[0][2], A) == (e[0], 'key'):
                    out[e[0]] = v
    return out


def scans(s, A):
    for t in s.trace:
        if t[0] == 'conts' and s.ord.feasible([neg(eq(t[2], ('len', A)))]) is False:
            yield t


def every(s, A, B, want, vals=False):
    """A completed scan of A in which the generic element is (not) in B."""
    if s.ord.feasible([lt(0, ('len', A))]) is False:
        return True
    for _, k, n, conts, s1 in scans(s, A):
        good = bool(conts)
        for c in conts:
            hit = [i for i, v in found(c, A, B).items() if v == want and at(c, i, k, n)]
            if vals:
                ok_ = values(c, A, B)
                hit = [i for i in hit if ok_.get(i) is True]
            good = good and bool(hit)
        if good:
            return True
    return False


def length(s, A, B):
    a, b = ('len', A), ('len', B)
    if s.ord.feasible([neg(eq(a, b))]) is False:
        return 'equal'
    if s.ord.feasible([le(a, b)]) is False:
        return 'longer'
    if s.ord.feasible([le(b, a)]) is False:
        return 'shorter'
    if s.ord.feasible([eq(a, b)]) is False:
        return 'differ'
    return None


def member(s, A, B, kind, truth):
    """Is the verdict `truth` of the test `kind` on A and B justified in s? None: fine, else the complaint."""
    nf = lambda X, Y: 0 in found(s, X, Y).values()
    yf = lambda X, Y: 1 in found(s, X, Y).values()
    if kind == 'superset':
        return member(s, B, A, 'subset', truth)
    if kind == 'subset':
        if truth:
            return None if every(s, A, B, 1) else 'says subset without having found every member in the other set'
        if length(s, A, B) == 'longer' or nf(A, B):
            return None
        return 'denies subset without a member that is missing from the other set'
    if kind == 'disjoint':
        if truth:
            if every(s, A, B, 0) or every(s, B, A, 0):
                return None
            return 'says disjoint without having looked up every member of one set in the other'
        return None if yf(A, B) or yf(B, A) else 'denies disjointness without a common member'
    if kind in ('equal', 'equalmap'):
        v = kind == 'equalmap'
        if truth:
            if length(s, A, B) != 'equal':
                return 'says equal without having compared the sizes'
            if every(s, A, B, 1, v) or every(s, B, A, 1, v):
                return None
            return 'says equal without having found every %s in the other' % ('entry' if v else 'member')
        if length(s, A, B) in ('longer', 'shorter', 'differ') or nf(A, B) or nf(B, A):
            return None
        if v and (False in values(s, A, B).values() or False in values(s, B, A).values()):
            return None
        return 'denies equality without a difference'
    raise Undecided(kind)


FIELD = {'key': 0, 'value': 1, '0': 0, '1': 1, '': 0}


def pairs(s, A, B):
    """{(index, field number): verdict} of comparisons of corresponding elements of A and B."""
    out, wrong = {}, False
    for t, v in s.ord.facts.items():
        if isinstance(t, tuple) and t and t[0] == 'eqv':
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                e, g = elem_of(x, A), elem_of(y, B)
                if e and g:
                    if FIELD.get(e[1]) != FIELD.get(g[1]) or not (e[0] == g[0] or s.ord.proves(eq(e[0], g[0]))):
                        wrong = True
                    else:
                        out[(e[0], FIELD[e[1]])] = v
                    break
    return out, wrong


def elementwise(s, A, B, fields, truth):
    if truth:
        if length(s, A, B) != 'equal':
            return 'says equal without having compared the lengths'
        if s.ord.feasible([lt(0, ('len', A))]) is False:
            return None
        for _, k, n, conts, s1 in scans(s, A):
            if conts and all(all(any(v is True and at(c, i, k, n) and g == fl for (i, g), v in pairs(c, A, B)[0].items())
                                 for fl in fields) for c in conts):
                return None
        return 'says equal without having compared every element'
    if length(s, A, B) in ('longer', 'shorter', 'differ') or False in pairs(s, A, B)[0].values():
        return None
    return 'denies equality without a difference'


# ------------------------------------------------------------- operations
COMPARE = {
    'set::RubySet::is_subset': 'subset', 'set::RubySet::is_superset': 'superset',
    'set::RubySet::is_disjoint': 'disjoint',
    'set::RubySet as RubyEql<E, G, R>::eql': 'equal', 'map::RubyMap as RubyEql<E, G, R>::eql': 'equalmap',
    'map::RubyMap as PartialEq::eq': 'equalmap', 'set::RubySet as PartialEq::eq': 'equalmap',
}
BULK = {'map::RubyMap::extend', 'set::RubySet::extend', 'map::RubyMap::from_iter', 'set::RubySet::from_iter',
        'map::RubyMap::from_ary', 'set::RubySet::from_ary', 'map::RubyMap::append', 'set::RubySet::append'}


def interp(prog):
    I = Driver(prog).interp()
    I.models = {**I.models, **M}
    return I


def verdict(v):
    """(kind, payload) of a bool or Result<bool> exit."""
    if is_agg(v) and v[3] == 'Err':
        return 'err', v[4][0][1]
    if is_agg(v) and v[3] == 'Ok':
        return 'val', v[4][0][1]
    return 'val', v


def settled(s, v):
    """[(state, bool)] for a boolean value."""
    if v in (TRUE, FALSE):
        return [(s, v == TRUE)]
    if isinstance(v, tuple) and v and v[0] == 'itcmp':
        return None
    return [(x, t) for x, t in s.fork(v)]


def lost_error(s, v):
    errs = [e['ret'] for e in s.events if e['kind'] == 'user-err']
    return [e for e in errs if not loops_mentions(v, e)]


def loops_mentions(v, x):
    return v == x or isinstance(v, tuple) and any(loops_mentions(y, x) for y in v)


def compare_op(prog, op, f, kind, O, fields=None):
    D = Driver(prog)
    for form in D.forms(f):
        I = interp(prog)
        st, args = D.inputs(f, form)
        A, B = ('E',), ('E', 2)
        if kind in ('elementwise', 'order'):
            A, B = whole(I, st, args[0]), whole(I, st, args[1])
            if A is None or B is None:
                raise Undecided('operands')
        res = I.call_fn(st, f, args, 0)
        O.fns |= I.visited
        O.unm |= set(I.unmodelled)
        seen = set()
        for s, v in res:
            if s.ord.feasible() is False:
                continue
            O.exits += 1
            how, x = verdict(v)
            if lost_error(s, v):
                O.bad('error', op, 'an error of a lookup or comparison is not reported', f)
                continue
            if how == 'err':
                if not any(e['kind'] == 'user-err' and loops_mentions(x, e['ret']) for e in s.events):
                    O.bad('error', op, 'fails with something other than the error of a lookup or comparison', f)
                seen.add('err')
                continue
            if isinstance(x, tuple) and x and x[0] == 'itcmp':
                want = {'order': op.rsplit('::', 1)[-1]}.get(kind, 'eq')
                if x[2] != A or x[3] != B or x[1] != want:
                    O.bad('verdict', op, 'compares something other than the two operands from start to end', f)
                continue
            if kind == 'order':
                raise Undecided('ordering not delegated to the iterators')
            for s1, t in settled(s, x):
                seen.add(t)
                msg = elementwise(s1, A, B, fields, t) if kind == 'elementwise' else member(s1, A, B, kind, t)
                O.scans += sum(1 for q in s1.trace if q[0] == 'conts')
                if msg:
                    O.bad('verdict', op, msg, f)
        if kind not in ('elementwise', 'order'):
            if not {True, False} <= seen:
                O.bad('verdict', op, 'always gives the same answer', f)
        for ps, what, pf, line in I.panics:
            if ps.ord.feasible() is not False and not any(e['kind'] == 'user-err' for e in ps.events):
                O.bad('panics', op, 'can panic in %s' % pf['path'].rsplit('::', 1)[-1], f)
    O.done[op] = O.done.get(op, 0) + 1


def bulk_op(prog, op, f, O):
    D = Driver(prog)
    is_set = op.startswith('set::')
    owned = op.rsplit('::', 1)[-1] in ('from_iter', 'from_ary')
    for form in D.forms(f):
        I = interp(prog)
        st, args = D.inputs(f, form)
        res = I.call_fn(st, f, args, 0)
        O.fns |= I.visited
        O.unm |= set(I.unmodelled)
        okays = 0
        for s, v in res:
            if s.ord.feasible() is False:
                continue
            O.exits += 1
            if lost_error(s, v):
                O.bad('error', op, 'an error of an insertion is not reported', f)
                continue
            how, x = verdict(v)
            if how == 'err':
                continue
            okays += 1
            if any(t[0] == 'inserted' for t in s.trace):
                O.bad('bulk', op, 'inserts outside the loop over the items', f)
            done = False
            for t in s.trace:
                if t[0] != 'conts':
                    continue
                _, k, n, conts, s1 = t
                ins = [[y for y in c.trace if y[0] == 'inserted'] for c in conts]
                if not any(ins):
                    continue
                O.scans += 1
                done = True
                it = n[1] if isinstance(n, tuple) and n[0] == 'len' else None
                if it is None or s.ord.feasible([neg(eq(n, ('len', it)))]) is not False:
                    O.bad('bulk', op, 'does not run through all items', f)
                for w, c in zip(ins, conts):
                    if len(w) != 1:
                        O.bad('bulk', op, 'an item is inserted %s' % ('more than once' if w else 'not at all'), f)
                        continue
                    _, recv, key, val = w[0]
                    src = ('item', it, k)
                    parts = (src, UNIT) if is_set and not drained(it) else (('fld', src, '0'), ('fld', src, '1'))
                    if is_set and drained(it):
                        parts = (('fld', src, '0'), None)
                    if key != parts[0] or parts[1] is not None and val != parts[1] and not (
                            is_set and val == ('fld', src, '1')):
                        O.bad('bulk', op, 'what is inserted is not the item of this step', f)
                    root = recv[1] if isinstance(recv, tuple) and recv[0] == 'ref' else None
                    if owned and (root is None or root[0] == 'O') or not owned and root != ('O', 'self'):
                        O.bad('bulk', op, 'inserts into another container', f)
                if drained(it):
                    d = it[2] if it[1] == 'opaque' else None
                    if d is None or d[1] != ('E', 2) or not full_range(d[2]):
                        O.bad('bulk', op, 'does not take all entries of the other container', f)
            if not done:
                O.bad('bulk', op, 'ends successfully without inserting the items', f)
        if not okays:
            O.bad('bulk', op, 'never succeeds', f)
    O.done[op] = O.done.get(op, 0) + 1


def drained(it):
    return isinstance(it, tuple) and len(it) > 2 and it[1] == 'opaque' and isinstance(it[2], tuple) \
        and it[2][0] == 'drained'


def full_range(v):
    return is_agg(v) and v[1].endswith('RangeFull') or isinstance(v, tuple) and v and v[0] == 'const' \
        and 'RangeFull' in str(v)


def c08(prog):
    O = Out()
    for f in sorted(prog.fns.values(), key=lambda f: f['fn']):
        if not f['fn'].startswith('rubymap::') or '{closure' in f['fn']:
            continue
        op = mapcheck.opname(f)
        try:
            if op in COMPARE:
                compare_op(prog, op, f, COMPARE[op], O)
            elif op in BULK:
                bulk_op(prog, op, f, O)
            elif op.endswith('::eq') and 'Slice' in op and 'PartialEq' in op:
                compare_op(prog, f['fn'], f, 'elementwise', O, (0,) if f['fn'].startswith('rubymap::set') else (0, 1))
            elif 'slice::Slice as ' in op and op.endswith(('::cmp', '::partial_cmp')):
                compare_op(prog, op, f, 'order', O)
        except Undecided as e:
            O.undecided.append((op, str(e)))
    return O


if __name__ == '__main__':
    import sys
    from mir import Program
    sys.setrecursionlimit(10000)
    O = c08(Program(sys.argv[1], ['rubymap', 'ruby_traits', 'hashbrown']))
    for v in O.viol:
        print(v)
    print('undecided', O.undecided, O.unm)
    print(O.done, O.exits, O.scans)
