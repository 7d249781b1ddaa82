"""Specifications of the table's primitives: probing (C12), sizes and layouts (C13),
element iteration (C14).  Each function is interpreted with its own model removed and
its result terms, effects and loop steps are compared with what the models used for
its callers promise."""
from terms import *
from absint import Undecided
from raw import *
from rawmodels import RM, tid_of
from mir import strip_generics
import rawrules
import rawcheck


class Out:
    def __init__(self, prog):
        self.prog = prog
        self.viol = []          # (prop, clause, fn, message, where)
        self.undecided = []
        self.done = {}          # prop -> [clause text]
        self.by = {}
        for f in prog.fns.values():
            self.by.setdefault(strip_generics(f['path']), []).append(f)

    def fn(self, path):
        c = [f for f in self.by.get(path, []) if '/tests' not in f['file']]
        if len(c) != 1:
            raise Missing(path)
        return c[0]

    def bad(self, prop, clause, f, msg):
        v = (prop, clause, strip_generics(f['path']), msg, '%s:%d' % (f['file'], f['line']))
        if v not in self.viol:
            self.viol.append(v)

    def ok(self, prop, what):
        self.done.setdefault(prop, []).append(what)

    def need(self, prop, clause, f, cond, msg):
        self.ok(prop, '%s in %s' % (clause, strip_generics(f['path'])))
        if not cond:
            self.bad(prop, clause, f, msg)


class Missing(Exception):
    pass


def interp(o, drop=()):
    return RInterp(o.prog, {k: v for k, v in RM.items() if k not in drop})


def call(o, path, args, st=None, drop=None, extra=None):
    """(interpreter, [(state, value)]) of the function at `path` with its model removed."""
    f = o.fn(path)
    I = interp(o, (path,) if drop is None else drop)
    I.models.update(extra or {})
    st = st or RState()
    return f, I, I.call_fn(st, f, args, 0)


def truth(st, cond):
    if cond in (TRUE, FALSE):
        return cond == TRUE
    return st.ord.truth(cond)


def table_ref(st, tid='S', wrap=False):
    st.mem[('O', 'self')] = outer(tid) if wrap else inner(tid)
    for c in (le(add(('items', tid), ('gl', tid)), ('cap', ('mask', tid))), le(('cap', ('mask', tid)), ('mask', tid))):
        st.ord.assume(c)
    return ('ref', ('O', 'self'), ())


HASH = ('arg', 'hash')
MASK = ('mask', 'S')


def masked(t, mask=MASK):
    """x when t is x & mask."""
    if isinstance(t, tuple) and t[0] == 'BitAnd' and mask in t[1:]:
        return t[2] if t[1] == mask else t[1]
    return None


# ---------------------------------------------------------------- probing
def head_map(I, info, state):
    """{head atom: value in `state`} of the loop variables."""
    m = {}
    for k, (old, f) in info['fresh'].items():
        if k[0] in ('ghost', 'table'):
            continue
        try:
            v = old if state is None else I.read(state, k[0], k[1])
        except (Undecided, KeyError):
            continue
        if v is None:
            continue
        m[f] = v
    return m


def probe_shape(o, f, I, info, P, conts, start):
    """Position sequence of a probing loop: (start expression, 'triangular' | 'linear')."""
    p0 = subst(P, head_map(I, info, None))
    kinds = set()
    for s in conts:
        nxt = subst(P, head_map(I, info, s))
        x = masked(nxt)
        if x is None:
            o.bad('C12', 'probe', f, 'the next probe position is not kept inside the table')
            continue
        d = sub(x, P)
        d0 = subst(d, head_map(I, info, None))
        d1 = subst(d, head_map(I, info, s))
        if d0 != W:
            o.bad('C12', 'probe', f, 'the second group probed is not the one after the first')
        if sub(d1, d) == W:
            kinds.add('triangular')
        elif d1 == d:
            kinds.add('linear')
        else:
            o.bad('C12', 'probe', f, 'the probe positions do not advance by whole groups')
    o.need('C12', 'probe', f, masked(p0) is not None and not mentions_other(p0), 'the first probe position is not '
           'the masked hash')
    return p0, kinds


def mentions_other(t):
    """Mentions anything but the hash and the mask."""
    if t in (HASH, MASK) or is_int(t):
        return False
    if isinstance(t, tuple) and t:
        if t[0] == 'lin':
            return any(mentions_other(a) for a, _ in t[2])
        if t[0] in ('arg', 'mask', 'h', 'fld', 'call', 'gl', 'items'):
            return True
        return any(mentions_other(x) for x in t[1:] if not isinstance(x, str))
    return False


def outer_loop(I, f):
    """The loop of `f` that loads control groups itself."""
    best = []
    for (fn, header), infos in I.loops_seen.items():
        for info in infos:
            own = [e for s in info['conts'] for e in s.eff[info['pre'] + 1:] if e[0] == 'load' and not e[3]]
            if own:
                best.append(info)
    return best


def spec_search(o, path, insert):
    """find_inner and find_or_find_insert_slot_inner."""
    st = RState()
    t = table_ref(st)
    f, I, rs = call(o, path, [t, HASH, ('arg', 'eq')], st)
    loops = outer_loop(I, f)
    if not loops:
        o.need('C12', 'probe', f, False, 'the search does not go on to further groups')
        return None
    info = loops[0]
    pre = info['pre']
    shape = None
    slots = [fr for k, (old, fr) in info['fresh'].items() if k[0] not in ('ghost', 'table')]

    def group(s):
        ls = [e for e in s.eff[pre + 1:] if e[0] == 'load' and not e[3]]
        return ls[0][2] if ls else None

    def bm(kind, P, *x):
        return ('bm', kind, ('grp', 'S', P, 0)) + x
    for s in info['conts']:
        P = group(s)
        o.need('C12', 'continue', f, any(truth(s, ('fact', 'any', bm(k, P))) is False
                                         for k in ('empty', 'empty_or_deleted')),
               'the search goes on although the group may have an empty slot')
        o.need('C12', 'complete', f, ('bitsdone', bm('tag', P, ('fulltag', HASH))) in s.eff[pre:],
               'the search leaves a group before every slot with the right tag was compared')
    Ps = {group(s) for s in info['conts']} - {None}
    if len(Ps) != 1:
        raise Undecided('probe position')
    P = Ps.pop()
    shape = probe_shape(o, f, I, info, P, info['conts'], None)
    for s, v in rs:
        P = group(s)
        if P is None:
            o.bad('C12', 'complete', f, 'the search ends without looking at a group')
            continue
        hit = fget(v, '0') if is_agg(v) and v[3] in ('Some', 'Ok') else None
        if hit is not None:
            us = [e for e in s.eff[pre:] if e[0] == 'user']
            x = masked(hit)
            bits = [a for a in lin(x)[1] if isinstance(a, tuple) and a[0] == 'bit'] if x is not None else []
            o.need('C12', 'found', f, len(bits) == 1 and bits[0][1] == bm('tag', P, ('fulltag', HASH)) and
                   sub(x, bits[0]) == P, 'the index reported is not a slot of the group with the tag of the hash')
            good = us and us[-1][2][-1] == hit and truth(s, ('ucall', us[-1][1], us[-1][4])) is True
            o.need('C12', 'found', f, good, 'an index is reported that the comparison did not accept')
            continue
        o.need('C12', 'absent', f, truth(s, ('fact', 'any', bm('empty', P))) is True and
               ('bitsdone', bm('tag', P, ('fulltag', HASH))) in s.eff[pre:],
               'the search gives up in a group without an empty slot')
        if insert:
            i = fget(fget(v, '0'), 'index')
            o.need('C12', 'slot', f, good_slot(s, i, P, slots, pre), 'the insert slot is not the first free slot on '
                   'the probe sequence')
    return shape


def good_slot(s, i, P, carried, pre, tid='S'):
    """`i` is a free slot of group P (or one carried over from an earlier group, or the
    lowest free slot of a table smaller than a group)."""
    if i in carried:
        return True
    x = masked(i)
    if x is not None:
        if any(sub(x, P) == ('low', ('bm', 'empty_or_deleted', ('grp', tid, P, 0))) for _ in (0,)):
            return True
        return False
    if i == ('low', ('bm', 'empty_or_deleted', ('grp', tid, 0, 0))):
        # only when the slot found first turned out to be occupied: a wrapped index of a tiny table
        return any(c == 'F' and t[0] == 'tag' and t[1] == tid for t, c in s.cls.items())
    if isinstance(i, tuple) and i[0] == 'fld' and any(mentions(i, c) for c in carried):
        return True
    return False


def spec_insert_slot(o):
    path = 'raw::RawTableInner::find_insert_slot'
    st = RState()
    t = table_ref(st)
    f, I, rs = call(o, path, [t, HASH], st)
    loops = outer_loop(I, f)
    if not loops:
        o.need('C12', 'probe', f, False, 'the search for a free slot does not go on to further groups')
        return None
    info = loops[0]
    pre = info['pre']
    Ps = set()
    for s in info['conts']:
        ls = [e for e in s.eff[pre + 1:] if e[0] == 'load' and not e[3]]
        P = ls[0][2]
        Ps.add(P)
        o.need('C12', 'continue', f, any(truth(s, ('fact', 'any', ('bm', k, ('grp', 'S', P, 0)))) is False
                                        for k in ('empty_or_deleted', 'empty')),
               'the search for a free slot passes a group that may have one')
    if len(Ps) != 1:
        raise Undecided('probe position')
    shape = probe_shape(o, f, I, info, Ps.pop(), info['conts'], None)
    for s, v in rs:
        ls = [e for e in s.eff[pre + 1:] if e[0] == 'load' and not e[3]]
        i = fget(v, 'index')
        o.need('C12', 'slot', f, bool(ls) and good_slot(s, i, ls[0][2], (), pre),
               'the insert slot is not a free slot of the group probed')
    return shape


def spec_hash_iter(o):
    f, I, rs = call(o, 'raw::RawIterHashInner::new', [table_ref(st0 := RState()), HASH], st0)
    p0 = None
    for s, v in rs:
        ps = fget(v, 'probe_seq')
        p0 = fget(ps, 'pos')
        g = fget(v, 'group')
        o.need('C12', 'probe', f, masked(p0) is not None and fget(ps, 'stride') == 0 and g == ('grp', 'S', p0, 0) and
               fget(v, 'bitmask') == ('bm', 'tag', g, ('fulltag', HASH)) and fget(v, 'bucket_mask') == MASK and
               fget(v, 'ctrl') == ctrl('S') and fget(v, 'tag_hash') == ('fulltag', HASH),
               'the iterator over one hash does not start with the first group of its probe sequence')
    path = '<raw::RawIterHashInner as std::iter::Iterator>::next'
    st = RState()
    pos, stride, grp0, bm0 = ('arg', 'pos'), ('arg', 'stride'), ('arg', 'group'), ('arg', 'bits')
    st.mem[('O', 'self')] = agg('raw::RawIterHashInner', 0, 'RawIterHashInner', [
        ('bucket_mask', MASK), ('ctrl', ctrl('S')), ('tag_hash', ('fulltag', HASH)),
        ('probe_seq', agg('raw::ProbeSeq', 0, 'ProbeSeq', [('pos', pos), ('stride', stride)])),
        ('group', grp0), ('bitmask', bm0)])
    f, I, rs = call(o, path, [('ref', ('O', 'self'), ())], st)
    infos = [i for l in I.loops_seen.values() for i in l]
    if not infos:
        o.need('C12', 'probe', f, False, 'the iterator over one hash does not go on to further groups')
        return p0, set()
    info = infos[0]
    kinds = set()

    def fields(s):
        v = s.mem[('O', 'self')]
        ps = fget(v, 'probe_seq')
        return fget(ps, 'pos'), fget(ps, 'stride'), fget(v, 'group'), fget(v, 'bitmask'), v
    hp, hs, hg, hb, _ = fields(info['head'])
    for s in info['conts']:
        np_, ns, ng, nb, v = fields(s)
        x = masked(np_)
        d = sub(x, hp) if x is not None else None
        o.need('C12', 'probe', f, d == add(hs, W) and ns == d or d == W and hs == ns == stride,
               'the iterator over one hash leaves the probe sequence')
        kinds.add('triangular' if d == add(hs, W) else 'linear')
        o.need('C12', 'probe', f, ng == ('grp', 'S', np_, 0) and nb == ('bm', 'tag', ng, ('fulltag', HASH)) and
               fget(v, 'bucket_mask') == MASK and fget(v, 'ctrl') == ctrl('S'),
               'the iterator over one hash looks at another group than its position says')
        o.need('C12', 'continue', f, truth(s, ('fact', 'any', ('bm', 'empty', hg))) is False and
               ('bitsdone', hb) in s.eff, 'the iterator over one hash leaves a group early or passes an empty slot')
    for s, v in rs:
        np_, ns, ng, nb, _ = fields(s)
        if is_agg(v) and v[3] == 'Some':
            x = masked(fget(v, '0'))
            bits = [a for a in lin(x)[1] if isinstance(a, tuple) and a[0] == 'bit'] if x is not None else []
            o.need('C12', 'found', f, len(bits) == 1 and bits[0][1] == nb and sub(x, bits[0]) == np_,
                   'the iterator over one hash yields an index outside the group')
        else:
            o.need('C12', 'absent', f, truth(s, ('fact', 'any', ('bm', 'empty', ng))) is True and
                   ('bitsdone', nb) in s.eff, 'the iterator over one hash gives up in a group without an empty slot')
    return p0, kinds


def spec_erase(o):
    path = 'raw::RawTableInner::erase'
    st = RState()
    t = table_ref(st)
    i = ('arg', 'index')
    st.cls[('tag', 'S', i, 0)] = 'F'
    for c in (le(i, MASK), le(1, MASK), le(1, ('items', 'S'))):
        st.ord.assume(c)
    f, I, rs = call(o, path, [t, i], st)
    before = ('bm', 'empty', ('grp', 'S', ('BitAnd', sub(i, W), MASK), 0))
    after = ('bm', 'empty', ('grp', 'S', i, 0))
    for s, v in rs:
        tags = [e for e in s.eff if e[0] == 'tag']
        o.need('C12', 'erase', f, len(tags) == 1 and tags[0][2] == i, 'erasing does not clear the slot it names')
        if tags and I.cls_of(s, tags[-1][3]) == 'E':
            o.need('C12', 'erase', f, s.ord.proves(lt(add(('lz', before), ('tz', after)), W)) or
                   s.ord.proves(lt(MASK, W)),
                   'a slot inside a full group is marked empty, which cuts off elements placed behind it')
        else:
            o.ok('C12', 'erase')


def spec_same_group(o, start):
    path = 'raw::RawTableInner::is_in_same_group'
    st = RState()
    t = table_ref(st)
    i, j = ('arg', 'i'), ('arg', 'new_i')
    f, I, rs = call(o, path, [t, i, j, HASH], st)

    def window(x):
        return ('BitAnd', sub(x, start), MASK)
    for s, v in rs:
        good = v == TRUE and s.ord.same(i, j) or v == FALSE and s.ord.proves(neg(eq(i, j)))
        for d in (16, 8, 4, 2):
            a, b = ('Div', window(i), d), ('Div', window(j), d)
            good = good or v == eq(a, b) or v == TRUE and s.ord.same(a, b) or \
                v == FALSE and s.ord.proves(neg(eq(a, b))) or v == eq(('Shr', window(i), 4), ('Shr', window(j), 4))
        good = good or v == eq(i, j)
        o.need('C12', 'rehash', f, good, 'an element is left where it is although the search for its hash starts in '
               'another group')


PROBES = {'raw::RawTableInner::find_inner': False, 'raw::RawTableInner::find_or_find_insert_slot_inner': True}


def c12(o):
    shapes = {}
    for path, ins in PROBES.items():
        guarded(o, 'C12', path, lambda: shapes.__setitem__(path, spec_search(o, path, ins)))
    guarded(o, 'C12', 'find_insert_slot', lambda: shapes.__setitem__('raw::RawTableInner::find_insert_slot', spec_insert_slot(o)))
    guarded(o, 'C12', 'RawIterHashInner', lambda: shapes.__setitem__('raw::RawIterHashInner::new', spec_hash_iter(o)))
    ref = shapes.get('raw::RawTableInner::find_insert_slot')
    if ref:
        for p, sh in sorted(shapes.items()):
            if sh:
                o.need('C12', 'agree', o.fn(p), sh[0] == ref[0] and sh[1] <= ref[1],
                       'probing does not follow the same sequence as the search for a free slot')
        guarded(o, 'C12', 'is_in_same_group', lambda: spec_same_group(o, ref[0]))
    guarded(o, 'C12', 'erase', lambda: spec_erase(o))


def guarded(o, prop, what, fn):
    try:
        return fn()
    except Undecided as e:
        o.undecided.append((prop, what, str(e)[:160]))
    except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
        o.undecided.append((prop, what, '%s: %s' % (type(e).__name__, str(e)[:160])))
