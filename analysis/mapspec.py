"""Documented effect of each public operation of the ordered map and set.

A specification is a function of the operation's abstract exit `x` returning
alternatives `Alt(guard, entries, returned)`: whenever the guard can hold on the
exit, the final entries and the returned value must be the stated ones.
Positions are symbolic, so one alternative covers every map size and content.
"""
from terms import *
from rmap import E0, N, SELF, IDX, HOLE, norm_hash, ENTRY
from maprules import Any, canon
from models import eqv

OPT, RES = 'std::option::Option', 'std::result::Result'
SAME = (('sub', E0, 0, N),)


class Alt:
    def __init__(self, guard, segs, ret):
        self.guard, self.segs, self.ret = guard, segs, ret


def el(i):
    return ('elem', E0, i)


def key(i):
    return ('fld', el(i), 'key')


def val(i):
    return ('fld', el(i), 'value')


def seg(a, b):
    return ('sub', E0, a, b)


def one(e):
    return ('one', e)


def bucket(h, k, v):
    return agg('Bucket', 0, 'Bucket', [('hash', h), ('key', k), ('value', v)])


def setval(i, v):
    return ('ovr', el(i), (('value', v),))


def repl(i, e):
    return (seg(0, i), one(e), seg(add(i, 1), N))


def without(i):
    return (seg(0, i), seg(add(i, 1), N))


def inserted(i, e):
    return (seg(0, i), one(e), seg(i, N))


def moved(frm, to, e=None):
    """[(guard, segments)] of moving entry `frm` to position `to`."""
    e = e or el(frm)
    return [([lt(frm, to)], (seg(0, frm), seg(add(frm, 1), add(to, 1)), one(e), seg(add(to, 1), N))),
            ([lt(to, frm)], (seg(0, to), one(e), seg(to, frm), seg(add(frm, 1), N))),
            ([eq(frm, to)], repl(frm, e))]


def swapped(i):
    last = sub(N, 1)
    return [([eq(i, last)], (seg(0, last),)),
            ([lt(i, last)], (seg(0, i), one(el(last)), seg(add(i, 1), last)))]


def hash_term(k, base=E0):
    return ('finish', ('hashed', ('hasher', ('hb', base)), k))


ANY = Any(lambda I, st, got: None)


class X:
    """What an exit of the operation learned about its arguments."""

    def __init__(self, I, st, args, found, is_set, form):
        self.I, self.s, self.args, self.found, self.is_set, self.form = I, st, args, found, is_set, form

    def a(self, i):
        return ('in', i)

    def n(self, i):
        return ('int', i)


def at(i, f):
    return ('at', i, f)


# ------------------------------------------------------------------ key operations
# name -> (receiver kinds, key argument, hash source)
def lookup(build, nbuild):
    def f(x):
        if x.found is None:
            return [Alt([], SAME, nbuild(x))]
        return [Alt([], SAME, build(x, x.found))]
    return f


def ins(x, stored, value, found_ret, new_ret, h):
    if x.found is None:
        return [Alt([], SAME + (one(bucket(h, stored, value)),), new_ret(N))]
    i = x.found
    return [Alt([], repl(i, setval(i, value)), found_ret(i))]


def removal(kind, ret):
    def f(x):
        if x.found is None:
            return [Alt([], SAME, ok(NONE) if not x.boolish else ok(FALSE))]
        i = x.found
        if kind == 'shift':
            return [Alt([], without(i), ret(i))]
        return [Alt(g, s, ret(i)) for g, s in swapped(i)]
    return f


def index_removal(kind, ret):
    def f(x):
        i = x.n(2)
        out = [Alt([le(N, i)], SAME, ok(NONE))]
        if kind == 'shift':
            out.append(Alt([lt(i, N)], without(i), ok(some(ret(i)))))
        else:
            out += [Alt([lt(i, N)] + g, s, ok(some(ret(i)))) for g, s in swapped(i)]
        return out
    return f


def insert_at(x, index, k, value, h, found_ret, new_ret, before):
    if x.found is None:
        return [Alt([le(index, N)], inserted(index, bucket(h, k, value)), new_ret(index))]
    i = x.found
    out = []
    e = setval(i, value)
    if before:
        for g, s in moved(i, sub(index, 1), e):
            out.append(Alt([lt(i, index)] + g, s, found_ret(i, sub(index, 1))))
        for g, s in moved(i, index, e):
            out.append(Alt([le(index, i)] + g, s, found_ret(i, index)))
    else:
        for g, s in moved(i, index, e):
            out.append(Alt([lt(index, N)] + g, s, found_ret(i, index)))
    return out


KEY = {}        # path -> (key term, hash term, spec)
OPS = {}        # path -> spec without key lookup
MAP, SET = 'map::RubyMap::', 'set::RubySet::'


def kmap(name, f, k=('in', 2), h=None):
    KEY[MAP + name] = (k, h or hash_term(k), f)


def kset(name, f, k=('in', 2)):
    KEY[SET + name] = (k, hash_term(k), f)


K2, V3 = ('in', 2), ('in', 3)
H2 = hash_term(K2)

kmap('contains_key', lookup(lambda x, i: ok(TRUE), lambda x: ok(FALSE)))
kmap('get', lookup(lambda x, i: ok(some(at(i, 'value'))), lambda x: ok(NONE)))
kmap('get_mut', lookup(lambda x, i: ok(some(at(i, 'value'))), lambda x: ok(NONE)))
kmap('get_key_value', lookup(lambda x, i: ok(some(tup(at(i, 'key'), at(i, 'value')))), lambda x: ok(NONE)))
kmap('get_full', lookup(lambda x, i: ok(some(tup(i, at(i, 'key'), at(i, 'value')))), lambda x: ok(NONE)))
kmap('get_full_mut', lookup(lambda x, i: ok(some(tup(i, at(i, 'key'), at(i, 'value')))), lambda x: ok(NONE)))
kmap('get_index_of', lookup(lambda x, i: ok(some(i)), lambda x: ok(NONE)))
kmap('get_prehashed', lookup(lambda x, i: ok(some(at(i, 'value'))), lambda x: ok(NONE)), k=('in', 3), h=('int', 2))
kmap('get_prehashed_with', lookup(lambda x, i: ok(some(at(i, 'value'))), lambda x: ok(NONE)), k=('callback',), h=('int', 2))
kmap('insert', lambda x: ins(x, K2, V3, lambda i: ok(some(val(i))), lambda n: ok(NONE), H2))
kmap('insert_full', lambda x: ins(x, K2, V3, lambda i: ok(tup(i, some(val(i)))), lambda n: ok(tup(n, NONE)), H2))
kmap('insert_sym', lambda x: ins(x, ('conv', K2), V3, lambda i: some(val(i)), lambda n: NONE, H2))
kmap('insert_sym_full', lambda x: ins(x, ('conv', K2), V3, lambda i: tup(i, some(val(i))), lambda n: tup(n, NONE), H2))
kmap('insert_prehashed', lambda x: ins(x, ('in', 3), ('in', 4), lambda i: some(val(i)), lambda n: NONE, ('int', 2)),
     k=('in', 3), h=('int', 2))
kmap('insert_prehashed_with', lambda x: ins(x, ('in', 3), ('in', 4), lambda i: some(val(i)), lambda n: NONE, ('int', 2)),
     k=('callback',), h=('int', 2))
kmap('insert_before', lambda x: insert_at(
    x, x.n(2), ('in', 3), ('in', 4), hash_term(('in', 3)), lambda i, t: ok(tup(t, some(val(i)))),
    lambda t: ok(tup(t, NONE)), True), k=('in', 3), h=hash_term(('in', 3)))
kmap('shift_insert', lambda x: insert_at(
    x, x.n(2), ('in', 3), ('in', 4), hash_term(('in', 3)), lambda i, t: ok(some(val(i))),
    lambda t: ok(NONE), False), k=('in', 3), h=hash_term(('in', 3)))


def insert_sorted(found_ok, found_ret, new_ret, value):
    def f(x):
        pos = [t for t in x.s.trace if t[0] == 'bsearch']
        if not pos:
            return [Alt([], None, Any(lambda I, st, got: 'inserts without consulting the sorted order'))]
        t = pos[-1][2]
        if pos[-1][1] == 'ok':
            return [Alt([], repl(t, setval(t, value)), found_ok(t))]
        return insert_at(x, t, K2, value, H2, found_ret, new_ret, True)
    return f


kmap('insert_sorted', insert_sorted(lambda t: ok(tup(t, some(val(t)))), lambda i, t: ok(tup(t, some(val(i)))),
                                    lambda t: ok(tup(t, NONE)), V3))
for nm, kind, ret in (
        ('shift_remove', 'shift', lambda i: ok(some(val(i)))),
        ('shift_remove_entry', 'shift', lambda i: ok(some(tup(key(i), val(i))))),
        ('shift_remove_full', 'shift', lambda i: ok(some(tup(i, key(i), val(i))))),
        ('swap_remove', 'swap', lambda i: ok(some(val(i)))),
        ('remove_entry', 'swap', lambda i: ok(some(tup(key(i), val(i))))),
        ('swap_remove_entry', 'swap', lambda i: ok(some(tup(key(i), val(i))))),
        ('swap_remove_full', 'swap', lambda i: ok(some(tup(i, key(i), val(i)))))):
    kmap(nm, removal(kind, ret))
for nm, kind, ret in (
        ('shift_remove', 'shift', lambda i: ok(TRUE)),
        ('swap_remove', 'swap', lambda i: ok(TRUE)),
        ('shift_take', 'shift', lambda i: ok(some(key(i)))),
        ('swap_take', 'swap', lambda i: ok(some(key(i)))),
        ('shift_remove_full', 'shift', lambda i: ok(some(tup(i, key(i))))),
        ('swap_remove_full', 'swap', lambda i: ok(some(tup(i, key(i)))))):
    kset(nm, removal(kind, ret))
BOOLISH = {SET + 'shift_remove', SET + 'swap_remove'}


def tombstone(x):
    if x.found is None:
        return [Alt([], SAME, ok(NONE))]
    i = x.found
    return [Alt([], repl(i, ('ovr', el(i), (('key', ('in', 3)), ('value', ('in', 4))))),
                ok(some(tup(i, key(i), val(i)))))]


kmap('tombstone_remove', tombstone)


def entry_spec(x):
    def occ_(I, st, got):
        if not (is_agg(got) and got[3] == 'Ok' and is_agg(got[4][0][1]) and got[4][0][1][3] == 'Occupied'):
            return 'present key is not reported as an occupied entry'
        o = got[4][0][1][4][0][1]
        i = dict(o[4]).get('index')
        v = dict(i[4]).get('val') if is_agg(i) else None
        return None if v is not None and st.ord.same(v, x.found) else 'occupied entry stands at the wrong position'

    def vac(I, st, got):
        if not (is_agg(got) and got[3] == 'Ok' and is_agg(got[4][0][1]) and got[4][0][1][3] == 'Vacant'):
            return 'absent key is not reported as a vacant entry'
        d = dict(got[4][0][1][4][0][1][4])
        if not st.ord.same(norm_hash(d.get('hash')), H2):
            return 'vacant entry carries the wrong hash'
        if d.get('key') != K2:
            return 'vacant entry carries the wrong key'
        return None
    return [Alt([], SAME, Any(vac if x.found is None else occ_))]


kmap('entry', entry_spec)

kset('contains', lookup(lambda x, i: ok(TRUE), lambda x: ok(FALSE)))
kset('get', lookup(lambda x, i: ok(some(at(i, 'key'))), lambda x: ok(NONE)))
kset('get_full', lookup(lambda x, i: ok(some(tup(i, at(i, 'key')))), lambda x: ok(NONE)))
kset('get_index_of', lookup(lambda x, i: ok(some(i)), lambda x: ok(NONE)))
kset('insert', lambda x: ins(x, K2, UNIT, lambda i: ok(FALSE), lambda n: ok(TRUE), H2))
kset('insert_full', lambda x: ins(x, K2, UNIT, lambda i: ok(tup(i, FALSE)), lambda n: ok(tup(n, TRUE)), H2))


def set_replace(full):
    def f(x):
        if x.found is None:
            return [Alt([], SAME + (one(bucket(H2, K2, UNIT)),), ok(tup(N, NONE)) if full else ok(NONE))]
        i = x.found
        return [Alt([], repl(i, ('ovr', el(i), (('key', K2),))),
                    ok(tup(i, some(key(i)))) if full else ok(some(key(i))))]
    return f


kset('replace', set_replace(False))
kset('replace_full', set_replace(True))
K3 = ('in', 3)
KEY[SET + 'insert_before'] = (K3, hash_term(K3), lambda x: insert_at(
    x, x.n(2), K3, UNIT, hash_term(K3), lambda i, t: ok(tup(t, FALSE)), lambda t: ok(tup(t, TRUE)), True))
KEY[SET + 'shift_insert'] = (K3, hash_term(K3), lambda x: insert_at(
    x, x.n(2), K3, UNIT, hash_term(K3), lambda i, t: ok(FALSE), lambda t: ok(TRUE), False))
kset('insert_sorted', insert_sorted(lambda t: ok(tup(t, FALSE)), lambda i, t: ok(tup(t, FALSE)),
                                    lambda t: ok(tup(t, TRUE)), UNIT))


# ------------------------------------------------------------------ positional operations
def both(name, f, fset=None):
    OPS[MAP + name] = f
    OPS[SET + name] = fset or f


unchanged = lambda ret: (lambda x: [Alt([], SAME, ret(x) if callable(ret) else ret)])
both('len', unchanged(lambda x: N))
both('is_empty', unchanged(lambda x: eq(N, 0)))
both('clear', lambda x: [Alt([], (), ANY)])
both('reserve', unchanged(ANY))
both('reserve_exact', unchanged(ANY))
both('shrink_to', unchanged(ANY))
both('shrink_to_fit', unchanged(ANY))
both('capacity', unchanged(ANY))
OPS[MAP + 'pop'] = lambda x: [Alt([eq(N, 0)], (), ok(NONE)),
                              Alt([lt(0, N)], (seg(0, sub(N, 1)),), ok(some(tup(key(sub(N, 1)), val(sub(N, 1))))))]
OPS[SET + 'pop'] = lambda x: [Alt([eq(N, 0)], (), ok(NONE)),
                              Alt([lt(0, N)], (seg(0, sub(N, 1)),), ok(some(key(sub(N, 1)))))]
both('truncate', lambda x: [Alt([lt(x.n(2), N)], (seg(0, x.n(2)),), ok(UNIT)), Alt([le(N, x.n(2))], SAME, ok(UNIT))])
OPS[MAP + 'swap_remove_index'] = index_removal('swap', lambda i: tup(key(i), val(i)))
OPS[MAP + 'shift_remove_index'] = index_removal('shift', lambda i: tup(key(i), val(i)))
OPS[SET + 'swap_remove_index'] = index_removal('swap', lambda i: key(i))
OPS[SET + 'shift_remove_index'] = index_removal('shift', lambda i: key(i))
both('move_index', lambda x: [Alt([lt(x.n(2), N), lt(x.n(3), N)] + g, s, ok(UNIT)) for g, s in moved(x.n(2), x.n(3))])
both('reverse', lambda x: [Alt([], (('rsub', E0, 0, N),), ANY)])


def other_entries(segs):
    """Returned container holds exactly these entries."""
    from maprules import seqs_differ
    from rmap import core_in

    def f(I, st, got):
        cs = core_in(got)
        if len(cs) != 1:
            return 'returned container not recognised'
        es = fget(cs[0], 'entries')
        if not (isinstance(es, tuple) and es[0] == 'seq'):
            return None
        d = seqs_differ(I, st, es[1], segs, ('key', 'value', 'hash'))
        return d and 'in the returned map: ' + d
    return Any(f)


both('split_off', lambda x: [Alt([le(x.n(2), N)], (seg(0, x.n(2)),), other_entries((seg(x.n(2), N),)))])
E2 = ('E', 2)
for own in ('map::RubyMap', 'set::RubySet', 'map::core::IndexMapCore'):
    OPS[own + ' as Clone::clone'] = lambda x: [Alt([], SAME, other_entries(SAME))]
    OPS[own + ' as Clone::clone_from'] = lambda x: [Alt([], (('sub', E2, 0, ('len', E2)),), ANY)]
    OPS[own + ' as Default::default'] = lambda x: [Alt([], None, other_entries(()))]


def bounds_of(x):
    """[(guard, lo, hi)] of the range argument of this exit."""
    s = x.s
    b = {}
    for t, v in s.variants.items():
        if isinstance(t, tuple) and t and t[0] == 'bound':
            b[t[1]] = v
    lo = {0: ('int', 'start'), 1: add(('int', 'start'), 1), 2: 0}.get(b.get('start'))
    hi = {0: add(('int', 'end'), 1), 1: ('int', 'end'), 2: N}.get(b.get('end'))
    return lo, hi


def seq_in(v, depth=0):
    if isinstance(v, tuple) and v:
        if v[0] == 'seq':
            return v
        if v[0] in ('drain', 'intoiter', 'val') and len(v) > 1:
            return seq_in(v[1], depth + 1)
        if v[0] == 'it' and v[1] == 'vals':
            return seq_in(v[2])
        if v[0] == 'agg' and depth < 6:
            for _, w in v[4]:
                r = seq_in(w, depth + 1)
                if r is not None:
                    return r
    return None


def yields(segs, wrap):
    from maprules import seqs_differ

    def f(I, st, got):
        q = seq_in(got)
        if q is None:
            return None
        d = seqs_differ(I, st, q[1], segs, ('key', 'value', 'hash'))
        return d and 'in the returned iterator: ' + d
    return Any(f)


def drain(x):
    lo, hi = bounds_of(x)
    if lo is None or hi is None:
        return []
    return [Alt([le(lo, hi), le(hi, N)], (seg(0, lo), seg(hi, N)), yields((seg(lo, hi),), ok))]


both('drain', drain)


def get_range(x):
    lo, hi = bounds_of(x)
    if lo is None:
        return []
    if hi is None:      # start already rejected
        return [Alt([le(lo, N)], None, Any(lambda I, st, got: 'an in-range start is rejected')),
                Alt([lt(N, lo)], SAME, NONE)]
    okc = [le(lo, hi), le(hi, N)]
    return [Alt(okc, SAME, some(('range', lo, hi))), Alt([lt(hi, lo)], SAME, NONE), Alt([lt(N, hi)], SAME, NONE)]


for nm in ('get_range', 'get_range_mut'):
    OPS[MAP + nm] = get_range
    OPS['map::slice::Slice::' + nm] = get_range
OPS[SET + 'get_range'] = get_range
OPS['set::slice::Slice::get_range'] = get_range


def pos_lookup(i_of, build, ret=some, none=NONE):
    def f(x):
        i = i_of(x)
        g = [lt(i, N)] if i != sub(N, 1) else [lt(0, N)]
        n = [le(N, i)] if i != sub(N, 1) else [eq(N, 0)]
        return [Alt(g, SAME, ret(build(i))), Alt(n, SAME, none)]
    return f


kv = lambda i: tup(at(i, 'key'), at(i, 'value'))
ko = lambda i: at(i, 'key')
for own, b in ((MAP, kv), ('map::slice::Slice::', kv), (SET, ko), ('set::slice::Slice::', ko)):
    OPS[own + 'get_index'] = pos_lookup(lambda x: x.n(2), b)
    OPS[own + 'first'] = pos_lookup(lambda x: 0, b)
    OPS[own + 'last'] = pos_lookup(lambda x: sub(N, 1), b)
    if b is kv:
        OPS[own + 'get_index_mut'] = pos_lookup(lambda x: x.n(2), b)
        OPS[own + 'first_mut'] = pos_lookup(lambda x: 0, b)
        OPS[own + 'last_mut'] = pos_lookup(lambda x: sub(N, 1), b)


def indexed_entry(i_of):
    def f(x):
        i = i_of(x)

        def good(I, st, got):
            if not (is_agg(got) and got[3] == 'Some'):
                return 'no entry returned for a position in range'
            e = got[4][0][1]
            return None if st.ord.same(dict(e[4]).get('index'), i) else 'entry stands at the wrong position'
        g = [lt(i, N)] if i != sub(N, 1) else [lt(0, N)]
        n = [le(N, i)] if i != sub(N, 1) else [eq(N, 0)]
        return [Alt(g, SAME, Any(good)), Alt(n, SAME, NONE)]
    return f


OPS[MAP + 'get_index_entry'] = indexed_entry(lambda x: x.n(2))
OPS[MAP + 'first_entry'] = indexed_entry(lambda x: 0)
OPS[MAP + 'last_entry'] = indexed_entry(lambda x: sub(N, 1))


# ------------------------------------------------------------------ filters and sorts
def traced(kind):
    return lambda x: [t for t in x.s.trace if t[0] == kind]


def filtered(pred):
    """entries = order-preserving filter whose verdict on an element is `pred(key, value)`"""
    def f(x):
        ts = traced('filter')(x)
        if len(ts) != 1:
            return [Alt([], None, Any(lambda I, st, got: 'entries are not filtered exactly once'))]
        _, src, base, elm, kept = ts[0]
        segs = (('sub', base, 0, ('len', base)),)

        def ret(I, st, got):
            if src != ('seq', SAME):
                return 'filters something other than the whole map'
            for r, after, _ in kept:
                if not pred(x, r, elm):
                    return 'an entry is kept or dropped against the verdict of the given predicate'
            return None
        return [Alt([], segs, Any(ret))]
    return f


def is_cb(r, fnterm, parts):
    """r is the result of calling the callback argument on these values."""
    return (isinstance(r, tuple) and r and r[0] == 'call' and r[1] == '<callback>'
            and list(strip_refs(a) for a in r[2][1:]) == list(parts) and strip_refs(r[2][0]) == fnterm)


def strip_refs(a):
    while isinstance(a, tuple) and a and a[0] == '&':
        a = a[1]
    return a


def kvof(e):
    return [('fld', e, 'key'), ('fld', e, 'value')]


OPS[MAP + 'retain'] = filtered(lambda x, r, e: is_cb(r, ('in', 2), kvof(e)))
OPS[SET + 'retain'] = filtered(lambda x, r, e: is_cb(r, ('in', 2), kvof(e)[:1]))
OPS[MAP + 'compact_tombstones'] = filtered(
    lambda x, r, e: isinstance(r, tuple) and r[0] == 'not' and is_cb(r[1], ('in', 2), kvof(e)[:1]))

GA, GB = ('gen', 'a'), ('gen', 'b')


def is_cmp(r, a, b):
    return (isinstance(r, tuple) and r and r[0] == 'call' and r[1].endswith('::cmp')
            and [strip_refs(z) for z in r[2]] == [a, b])


def sorted_(judge, stable):
    def f(x):
        ts = traced('permute')(x)
        if len(ts) != 1:
            return [Alt([], None, Any(lambda I, st, got: 'entries are not sorted exactly once'))]
        _, src, base, how, cmp_ = ts[0]

        def ret(I, st, got):
            if src != ('seq', SAME):
                return 'sorts something other than the whole map'
            if stable and 'unstable' in how:
                return 'a stable sort is replaced by an unstable one'
            for r, els in cmp_ or []:
                if not judge(r):
                    return 'entries are compared in the wrong order or on the wrong parts'
            q = seq_in(got)
            if q is not None and q[1] != (('sub', base, 0, N),):
                return 'the sorted entries are not the ones returned'
            return None
        return [Alt([], (('sub', base, 0, N),), Any(ret))]
    return f


byc = lambda r: is_cb(r, ('in', 2), kvof(GA) + kvof(GB))
bykc = lambda r: is_cb(r, ('in', 2), [('fld', GA, 'key'), ('fld', GB, 'key')])
byk = lambda r: is_cmp(r, ('fld', GA, 'key'), ('fld', GB, 'key'))
OPS[MAP + 'sort_keys'] = sorted_(byk, True)
OPS[MAP + 'sort_by'] = sorted_(byc, True)
OPS[MAP + 'sort_unstable_keys'] = sorted_(byk, False)
OPS[MAP + 'sort_unstable_by'] = sorted_(byc, False)
OPS[MAP + 'sort_by_cached_key'] = sorted_(lambda r: is_cb(r, ('in', 2), kvof(GA)), True)
OPS[MAP + 'sorted_by'] = sorted_(byc, True)
OPS[MAP + 'sorted_unstable_by'] = sorted_(byc, False)
OPS[SET + 'sort'] = sorted_(byk, True)
OPS[SET + 'sort_by'] = sorted_(bykc, True)
OPS[SET + 'sort_unstable'] = sorted_(byk, False)
OPS[SET + 'sort_unstable_by'] = sorted_(bykc, False)
OPS[SET + 'sort_by_cached_key'] = sorted_(lambda r: is_cb(r, ('in', 2), kvof(GA)[:1]), True)
OPS[SET + 'sorted_by'] = sorted_(bykc, True)
OPS[SET + 'sorted_unstable_by'] = sorted_(bykc, False)


def bsearch(judge):
    def f(x):
        pos = [t for t in x.s.trace if t[0] == 'bsearch']
        if not pos:
            return [Alt([], None, Any(lambda I, st, got: 'no search of the sorted entries'))]
        _, how, t = pos[-1]

        def ret(I, st, got):
            inner = t[1]
            if inner[1] != ('seq', SAME):
                return 'searches something other than the whole map'
            if not all(judge(r) for r in inner[2]):
                return 'the probe is compared in the wrong order or on the wrong part'
            want = ok(t) if how == 'ok' else err(t)
            return None if got == want else 'the search result is altered'
        return [Alt([], SAME, Any(ret))]
    return f


def by_key_cmp(r):
    # f(key, value).cmp(b)
    return (isinstance(r, tuple) and r and r[0] == 'call' and r[1].endswith('::cmp')
            and is_cb(strip_refs(r[2][0]), ('in', 3), kvof(GA)) and strip_refs(r[2][1]) == ('in', 2))


def by_key_cmp_set(r):
    return (isinstance(r, tuple) and r and r[0] == 'call' and r[1].endswith('::cmp')
            and is_cb(strip_refs(r[2][0]), ('in', 3), kvof(GA)[:1]) and strip_refs(r[2][1]) == ('in', 2))


for own, kp in ((MAP, kvof(GA)), ('map::slice::Slice::', kvof(GA)), (SET, kvof(GA)[:1]), ('set::slice::Slice::', kvof(GA)[:1])):
    OPS[own + 'binary_search_by'] = bsearch(lambda r, kp=kp: is_cb(r, ('in', 2), kp))
    OPS[own + 'binary_search_by_key'] = bsearch(by_key_cmp if len(kp) == 2 else by_key_cmp_set)
    OPS[own + ('binary_search_keys' if len(kp) == 2 else 'binary_search')] = bsearch(
        lambda r: is_cmp(r, ('fld', GA, 'key'), ('in', 2)))

    def ppoint(x, kp=kp):
        def ret(I, st, got):
            if not (isinstance(got, tuple) and got and got[0] == 'partition'):
                return 'the partition point is altered'
            if got[1] != ('seq', SAME):
                return 'searches something other than the whole map'
            return None if all(is_cb(r, ('in', 2), kp) for r in got[2]) else 'the predicate is applied to the wrong parts'
        return [Alt([], SAME, Any(ret))]
    OPS[own + 'partition_point'] = ppoint


def map_keys(x):
    from maprules import part
    from rmap import core_in

    def ret(I, st, got):
        cs = core_in(got)
        if len(cs) != 1:
            return None
        es = fget(cs[0], 'entries')
        if I.seq_len(es) != N and not st.ord.proves(eq(I.seq_len(es), N)):
            return 'the number of entries changes'
        i = I.fresh('x')
        s = st.copy()
        if not s.ord.assume(lt(i, N)):
            return None
        e = I.seq_get(s, es, i)
        if not is_agg(e):
            return None
        if not s.ord.same(part(I, s, e, 'hash'), norm_hash(('fld', el(i), 'hash'))):
            return 'an entry loses its recorded hash'
        if not s.ord.same(part(I, s, e, 'value'), val(i)):
            return 'an entry loses its value'
        k = part(I, s, e, 'key')
        if not is_cb(k, ('in', 2), [key(i)]):
            return 'a key is not the image of the old key'
        return None
    return [Alt([], None, Any(ret))]


OPS[MAP + 'map_keys'] = map_keys


def tombstone_index(x):
    i = x.n(2)
    return [Alt([le(N, i)], SAME, ok(NONE)),
            Alt([lt(i, N)], repl(i, ('ovr', el(i), (('key', ('in', 3)), ('value', ('in', 4))))),
                ok(some(tup(key(i), val(i)))))]


OPS[MAP + 'tombstone_index'] = tombstone_index


def ctor(x):
    return [Alt([], None, other_entries(()))]


for nm in ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher'):
    both(nm, ctor)

for own, b in (('map::RubyMap', 'value'), ('map::slice::Slice', 'value'), ('set::RubySet', 'key'),
               ('set::slice::Slice', 'key')):
    for tr, m in (('Index', 'index'), ('IndexMut', 'index_mut')):
        OPS['%s as %s<usize>::%s' % (own, tr, m)] = lambda x, b=b: [Alt([lt(x.n(2), N)], SAME, at(x.n(2), b))]
KEY['map::RubyMap as Index<&Q>::index'] = (K2, H2, lambda x: (
    [Alt([], SAME, at(x.found, 'value'))] if x.found is not None else []))

# slices
SL, SS = 'map::slice::Slice::', 'set::slice::Slice::'
for own, b in ((SL, kv), (SS, ko)):
    OPS[own + 'len'] = unchanged(lambda x: N)
    OPS[own + 'is_empty'] = unchanged(lambda x: eq(N, 0))
    OPS[own + 'split_at'] = lambda x: [Alt([le(x.n(2), N)], SAME, tup(('range', 0, x.n(2)), ('range', x.n(2), N)))]
    OPS[own + 'split_first'] = lambda x, b=b: [
        Alt([lt(0, N)], SAME, some(tup(b(0), ('range', 1, N)))), Alt([eq(N, 0)], SAME, NONE)]
    OPS[own + 'split_last'] = lambda x, b=b: [
        Alt([lt(0, N)], SAME, some(tup(b(sub(N, 1)), ('range', 0, sub(N, 1))))), Alt([eq(N, 0)], SAME, NONE)]
for nm in ('split_at', 'split_first', 'split_last'):
    OPS[SL + nm + '_mut'] = OPS[SL + nm]

# ------------------------------------------------------------------ entries
EN, OE, VE, IE = (ENTRY + n for n in ('Entry::', 'OccupiedEntry::', 'VacantEntry::', 'IndexedEntry::'))
EH, EK = ('in', 'entry.hash'), ('in', 'entry.key')


def new_at_end(ret, v):
    return lambda x: [Alt([], SAME + (one(bucket(EH, EK, v(x) if callable(v) else v)),), ret)]


def remove_at_idx(kind, ret):
    def f(x):
        if kind == 'shift':
            return [Alt([], without(IDX), ret)]
        return [Alt(g, s, ret) for g, s in swapped(IDX)]
    return f


for own in (OE, IE):
    OPS[own + 'index'] = unchanged(lambda x: IDX)
    OPS[own + 'key'] = unchanged(lambda x: at(IDX, 'key'))
    OPS[own + 'get'] = unchanged(lambda x: at(IDX, 'value'))
    OPS[own + 'get_mut'] = unchanged(lambda x: at(IDX, 'value'))
    OPS[own + 'into_mut'] = unchanged(lambda x: at(IDX, 'value'))
    OPS[own + 'insert'] = lambda x: [Alt([], repl(IDX, setval(IDX, ('in', 2))), val(IDX))]
    OPS[own + 'swap_remove'] = remove_at_idx('swap', ok(val(IDX)))
    OPS[own + 'shift_remove'] = remove_at_idx('shift', ok(val(IDX)))
    OPS[own + 'swap_remove_entry'] = remove_at_idx('swap', ok(tup(key(IDX), val(IDX))))
    OPS[own + 'shift_remove_entry'] = remove_at_idx('shift', ok(tup(key(IDX), val(IDX))))
    OPS[own + 'move_index'] = lambda x: [Alt([lt(x.n(2), N)] + g, s, ok(UNIT)) for g, s in moved(IDX, x.n(2))]
OPS[OE + 'remove'] = OPS[OE + 'swap_remove']
OPS[OE + 'remove_entry'] = OPS[OE + 'swap_remove_entry']
OPS[VE + 'index'] = unchanged(lambda x: N)
OPS[VE + 'key'] = unchanged(('val', EK))
OPS[VE + 'into_key'] = unchanged(EK)
OPS[VE + 'insert'] = new_at_end(at(N, 'value'), ('in', 2))
OPS[VE + 'shift_insert'] = lambda x: [Alt([le(x.n(2), N)], inserted(x.n(2), bucket(EH, EK, ('in', 3))), ok(at(x.n(2), 'value')))]


def ve_sorted(x):
    pos = [t for t in x.s.trace if t[0] == 'bsearch']
    if not pos:
        return []
    t = pos[-1][2]
    if pos[-1][1] == 'ok':
        return []
    return [Alt([], inserted(t, bucket(EH, EK, ('in', 2))), ok(tup(t, at(t, 'value'))))]


OPS[VE + 'insert_sorted'] = ve_sorted


def occ_at(i):
    def f(I, st, got):
        if not is_agg(got):
            return None
        d = dict(got[4])
        v = dict(d['index'][4]).get('val') if is_agg(d.get('index')) else None
        return None if v is not None and st.ord.same(v, i) else 'entry stands at the wrong position'
    return Any(f)


OPS[VE + 'insert_entry'] = new_at_end(occ_at(N), ('in', 2))


def by_variant(occ_, vac):
    return lambda x: occ_(x) if x.form == 'occupied' else vac(x)


OPS[EN + 'index'] = by_variant(OPS[OE + 'index'], OPS[VE + 'index'])
OPS[EN + 'key'] = by_variant(OPS[OE + 'key'], OPS[VE + 'key'])
OPS[EN + 'insert_entry'] = by_variant(lambda x: [Alt([], repl(IDX, setval(IDX, ('in', 2))), occ_at(IDX))],
                                      OPS[VE + 'insert_entry'])
OPS[EN + 'or_insert'] = by_variant(OPS[OE + 'into_mut'], OPS[VE + 'insert'])


def cb_value(nparts):
    """The new entry's value is the callback's answer."""
    def f(x):
        def ret(I, st, got):
            from rmap import core_in
            cs = core_in(st.mem.get(SELF))
            es = fget(cs[0], 'entries')
            e = I.seq_get(st, es, N)
            v = I.field(st, e, 'value')
            if nparts >= 0 and not is_cb(v, ('in', 2), [EK][:nparts]):
                return 'the inserted value is not the one the caller computed'
            k, h = I.field(st, e, 'key'), norm_hash(I.field(st, e, 'hash'))
            if k != EK or h != EH:
                return 'the inserted entry has the wrong key or hash'
            return None if got == at(N, 'value') or st.ord.same(got, at(N, 'value')) else 'returns the wrong reference'
        return [Alt([], None, Any(ret))]
    return f


OPS[EN + 'or_insert_with'] = by_variant(OPS[OE + 'into_mut'], cb_value(0))
OPS[EN + 'or_insert_with_key'] = by_variant(OPS[OE + 'into_mut'], cb_value(1))
OPS[EN + 'or_default'] = by_variant(OPS[OE + 'into_mut'], cb_value(-1))
OPS[EN + 'and_modify'] = by_variant(unchanged(ANY), unchanged(ANY))

# conditions under which an operation is documented to panic
def range_panics(x):
    lo, hi = bounds_of(x)
    return ([lt(N, lo)] if lo is not None else []) + \
        ([lt(N, hi)] + ([lt(hi, lo)] if lo is not None else []) if hi is not None else [])


I2, I3 = ('int', 2), ('int', 3)
# documented reasons to panic, by operation: conditions any of which excuses the panic, or
# None where the argument decides and no condition over positions states it
PANICS = {
    'move_index': lambda x: [le(N, I2), le(N, I3)],
    'insert_before': lambda x: [lt(N, I2)],
    'shift_insert': lambda x: [lt(N, I2)] if x.found is None else [le(N, I2)],
    'split_off': lambda x: [lt(N, I2)],
    'split_at': lambda x: [lt(N, I2)],
    'split_at_mut': lambda x: [lt(N, I2)],
    'drain': range_panics,
    'get_disjoint_mut': lambda x: None,
    'get_disjoint_indices_mut': lambda x: None,
}


def panics(x, path, name):
    if any(e['kind'] == 'user-err' for e in x.s.events) and ('PartialEq' in path or ' as Index<&Q>' in path):
        return None
    if ' as Index' in path:
        if '<&Q>' in path:
            return None if x.found is None else []
        if 'Index<usize>' in path or 'IndexMut<usize>' in path:
            return [le(N, I2)]
        return None
    if name == 'insert_sorted' and any(t[0] == 'bsearch' and t[1] == 'ok' for t in x.s.trace):
        return None
    f = PANICS.get(name)
    return f(x) if f else []
