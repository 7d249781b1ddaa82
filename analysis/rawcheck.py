"""Runs the slot ledger over the entry points of the hash table crate."""
import collections
import sys
from terms import *
from absint import Undecided
from raw import *
import rawmodels
from rawmodels import RM
import rawrules
import rawfun
from mir import strip_generics

sys.setrecursionlimit(10000)

# private functions replaced by a contract elsewhere, hence analysed on their own
CONTRACT = ('raw::RawTableInner::resize_inner', 'raw::RawTableInner::reserve_rehash_inner',
            'raw::RawTable::resize')
# low-level public functions whose caller owns the bookkeeping
def opts_of(p):
    if p == 'raw::RawTable::clear_no_drop':
        return ('noelem',)
    if p.endswith('Iterator>::next') and ('Drain' in p or 'IntoIter' in p):
        return ('yielded', 'nocount')
    if 'Drain' in p and not p.endswith('Drop>::drop') and p != 'raw::RawTable::drain':
        return ('nocount',)
    if p == 'raw::RawTable::bucket':
        return ('handle',)
    return ()


# primitives that have specifications of their own (C12-C14)
SKIP_PREFIX = ('raw::Bucket::', '<raw::Bucket<T>', 'raw::RawIterRange', '<raw::RawIterRange', '<raw::RawIter<T>',
               '<raw::FullBucketsIndices', 'raw::FullBucketsIndices', '<raw::TableLayout', '<raw::ProbeSeq',
               '<raw::RawIterHash', 'raw::RawIterHash', 'control::')


# entries that remember the hash of their key
KEYED = ('map::VacantEntry', 'map::VacantEntryRef', 'map::OccupiedEntry')


def build(I, st, crate, ty, nm, tid, depth=0):
    """[(value, [assumptions applied to the state])] for an argument of type `ty`."""
    t = crate.ty(ty)
    if depth > 8:
        return ('arg', nm)
    if t['k'] == 'ref':
        v = build(I, st, crate, t['t'], nm, tid, depth + 1)
        if isinstance(v, tuple) and v[0] == 'arg':
            return v
        r = ('O', nm)
        st.mem[r] = v
        return ('ref', r, ())
    if t['k'] == 'adt':
        p = t['path']
        if p == INNER:
            return inner(tid)
        if p == 'raw::Bucket':
            i = ('arg', nm, 'bucket')
            st.cls[('tag', tid, i, 0)] = 'F'
            for c in (le(i, ('mask', tid)), le(1, ('mask', tid)), le(1, ('items', tid))):
                st.ord.assume(c)
            return ('bucket', tid, i)
        if p == 'raw::InsertSlot':
            i = ('ins', tid, ('arg', 'hash'), 0)
            st.extra['slots'] = st.extra.get('slots', ()) + ((tid, i),)
            st.ord.assume(le(i, ('mask', tid)))
            st.ord.assume(le(1, ('mask', tid)))
            return agg(p, 0, 'InsertSlot', [('index', i)])
        if p == 'raw::RawIter':
            return agg(p, 0, 'RawIter', [('iter', ('range', tid)), ('items', ('left', tid))])
        if p == 'raw::RawIterHashInner':
            h = ('arg', 'hash')
            return agg(p, 0, 'RawIterHashInner', [
                ('bucket_mask', ('mask', tid)), ('ctrl', ctrl(tid)), ('tag_hash', ('fulltag', h)),
                ('probe_seq', agg('raw::ProbeSeq', 0, 'ProbeSeq', [('pos', ('arg', nm, 'pos')), ('stride', ('arg', nm, 'stride'))])),
                ('group', ('arg', nm, 'group')), ('bitmask', ('arg', nm, 'bitmask'))])
        if p in ('std::marker::PhantomData',):
            return ('PhantomData',)
        if p in crate.adts and crate.adts[p]['kind'] == 'Struct':
            a = crate.adts[p]
            if p == 'raw::RawDrain':
                st.mem[('O', nm + '.orig')] = inner('NEW', 0, 0, 0)
            fs = []
            for f in a['variants'][0][1]:
                if p == 'raw::RawDrain' and f[0] == 'orig_table':
                    fs.append((f[0], ('ref', ('O', nm + '.orig'), ())))
                elif f[0] == 'hash':
                    fs.append((f[0], ('arg', 'hash')))
                else:
                    fs.append((f[0], build(I, st, crate, f[1], nm + '.' + f[0], tid, depth + 1)))
            if p in KEYED:
                key = dict(fs).get('key', dict(fs).get('value'))
                el = dict(fs).get('elem')
                if el is not None:
                    key = ('fld', ('item', el[1], el[2]), '0')
                if isinstance(key, tuple) and key[0] in ('arg', 'fld'):
                    fs = [(n, ('khash', key) if n == 'hash' else v) for n, v in fs]
            if all(isinstance(v, tuple) and v and v[0] in ('arg', 'PhantomData') for _, v in fs) and p != INNER:
                return ('arg', nm)
            if p in ('raw::RawDrain', 'raw::RawIntoIter'):
                st.extra[('H', tid)] = ('left', tid)
            return agg(p, 0, a['variants'][0][0], fs)
        if p in crate.adts and crate.adts[p]['kind'] == 'Enum' and st.extra.get('variant') is not None:
            vi = st.extra['variant'] % len(crate.adts[p]['variants'])
            vn, fl_ = crate.adts[p]['variants'][vi]
            fs = [(f[0], build(I, st, crate, f[1], nm + '.' + f[0], tid, depth + 1)) for f in fl_]
            return agg(p, vi, vn, fs)
    return ('arg', nm)


def inputs(I, f):
    """[(label, state, args)]"""
    crate = f['crate']
    outs = []
    for variant in (0, 1):
        st = RState()
        st.extra['variant'] = variant
        args = []
        for i in range(1, f['argc'] + 1):
            nm = f['locals'][i][1] or 'a%d' % i
            args.append(build(I, st, crate, f['locals'][i][0], nm, 'S' if i == 1 or not has_table(crate, f['locals'][i][0]) else 'R'))
        for t in ('S', 'R'):
            st.ord.assume(le(add(('items', t), ('gl', t)), ('cap', ('mask', t))))
            st.ord.assume(le(('cap', ('mask', t)), ('mask', t)))
            st.ord.assume(le(('left', t), ('items', t)))
        slots = st.extra.get('slots', ())
        if slots:
            for c in 'ED':
                s = st.copy()
                ok_ = True
                for tid, i in slots:
                    s.cls[('tag', tid, i, 0)] = c
                    if c == 'E':
                        ok_ = ok_ and s.ord.assume(le(1, ('gl', tid)))
                    else:
                        ok_ = ok_ and s.ord.assume(le(add(add(('items', tid), ('gl', tid)), 1), ('cap', ('mask', tid))))
                if ok_:
                    outs.append((c, s, args))
        else:
            outs.append(('', st, args))
        if not any(is_enum(crate, f['locals'][i][0]) for i in range(1, f['argc'] + 1)):
            break
    p = strip_generics(f['path'])
    if p in ('raw::RawTableInner::resize_inner', 'raw::RawTable::resize'):
        for _, s, a in outs:
            t = 'S'
            s.ord.assume(le(('items', t), ('arg', 'capacity')))
            s.ord.assume(le(1, ('arg', 'capacity')))
    return outs


def has_table(crate, ty, depth=0):
    t = crate.ty(ty)
    if t['k'] == 'ref':
        return has_table(crate, t['t'], depth + 1)
    return t['k'] == 'adt' and t['path'] in (INNER, 'raw::RawTable', 'table::HashTable', 'map::HashMap', 'set::HashSet')


def is_enum(crate, ty):
    t = crate.ty(ty)
    if t['k'] == 'ref':
        return is_enum(crate, t['t'])
    return t['k'] == 'adt' and t['path'] in crate.adts and crate.adts[t['path']]['kind'] == 'Enum'


def value_rules(I, st, v, L, out, depth=0):
    """Type invariants of handles given to the caller."""
    if not isinstance(v, tuple) or not v or depth > 8:
        return
    if v[0] == 'bucket':
        if v[1] in L.freed:
            out.append(('memory', 'a handle into a freed table is returned'))
        elif I.cls_of(st, I.tag_at(st, v[1], v[2])) != 'F':
            out.append(('element', 'the handle returned names a slot that may not be full'))
        return
    if v[0] == 'ref' and v[1][0] == 'L':
        out.append(('memory', 'a pointer to a dead local is returned'))
        return
    if is_agg(v, 'raw::InsertSlot'):
        i = fget(v, 'index')
        if isinstance(i, tuple) and i[0] in ('ins', 'hit', 'arg'):
            tid = i[1] if i[0] != 'arg' else 'S'
        else:
            return
        c = I.cls_of(st, I.tag_at(st, tid, i))
        if 'F' in c:
            out.append(('element', 'the insert slot returned may be full'))
        elif 'E' in c:
            for t, tv in rawrules.tables_of(st).items():
                if t == tid and not st.ord.proves(le(1, fget(tv, 'growth_left'))):
                    out.append(('growth', 'an insert slot is returned although no room may be left'))
        return
    if is_agg(v) and v[1] in KEYED and 'hash' in dict(v[4]):
        h = fget(v, 'hash')
        k = dict(v[4]).get('key', dict(v[4]).get('value'))
        el = dict(v[4]).get('elem')
        if el is not None:
            i = el[2]
            if not (h == ('khash', ('fld', ('item', el[1], i), '0')) or isinstance(i, tuple) and
                    i[0] in ('hit', 'ins') and i[1:3] == (el[1], h)):
                out.append(('place', 'an entry remembers a hash that is not its key\'s'))
        elif not (isinstance(h, tuple) and h[0] == 'khash' and h[1] in (k, rawmodels.keyval(I, st, k))):
            out.append(('place', 'a vacant entry remembers a hash that is not its key\'s'))
    if is_agg(v):
        for _, x in v[4]:
            value_rules(I, st, x, L, out, depth + 1)


def room_rules(p, s, v, out):
    """Room that was asked for is there."""
    want = ROOM.get(p)
    if not want:
        return
    ts = rawrules.tables_of(s, [v])
    ts = [t for k, t in ts.items() if k != 'R'] if len(ts) > 1 else list(ts.values())
    for t in ts:
        m = fget(t, 'bucket_mask')
        have = fget(t, 'growth_left') if want[0] == 'gl' else rawrules.capof(m)
        if not s.ord.proves(le(('arg', want[1]), have)) and not (
                s.ord.feasible([lt(have, ('arg', want[1]))]) is False):
            out.append(('room', 'less room is granted than was asked for'))
        if want[0] == 'cap' and 'resize' in p and not s.ord.same(add(fget(t, 'growth_left'), fget(t, 'items')), have):
            out.append(('room', 'a freshly laid out table does not have all its free room'))


ROOM = {'raw::RawTableInner::reserve_rehash_inner': ('gl', 'additional'), 'raw::RawTable::reserve': ('gl', 'additional'),
        'raw::RawTableInner::resize_inner': ('cap', 'capacity'), 'raw::RawTable::resize': ('cap', 'capacity'),
        'raw::RawTable::with_capacity': ('cap', 'capacity'), 'raw::RawTable::with_capacity_in': ('cap', 'capacity'),
        'table::HashTable::with_capacity': ('cap', 'capacity'), 'table::HashTable::reserve': ('gl', 'additional')}


def shared(I, s, tid):
    """May table `tid` be the static empty table that all empty maps share?"""
    if tid == 'NEW':
        return True
    m = I.mask_of(s, tid)
    return not s.ord.proves(le(1, m)) and s.ord.feasible([eq(m, 0)]) is not False


def at_entry(st, args):
    return set(rawrules.tables_of(st, args))


class Report:
    def __init__(self):
        self.viol = []              # (clause, function, message, where)
        self.fns = 0
        self.exits = 0
        self.unwinds = 0
        self.loops = 0
        self.undecided = []
        self.entered = set()
        self.paths = []
        self.effects = collections.Counter()
        self.rules = rawfun.Rules()


def entries(prog):
    out = []
    for f in sorted(prog.fns.values(), key=lambda f: (f['file'], f['line'], f['fn'])):
        if f['kind'] not in ('AssocFn', 'Fn') or '/tests' in f['file'] or 'closure' in f['fn']:
            continue
        p = strip_generics(f['path'])
        if p.endswith('::fmt') or '::test' in f['fn'] or p.startswith(SKIP_PREFIX):
            continue
        if not f['file'].endswith(('raw/mod.rs', 'table.rs', 'src/map.rs', 'src/set.rs')):
            continue
        trait = p.startswith('<')
        if not (trait or f.get('vis') == 'Public' or p in CONTRACT):
            continue
        if p.endswith('RawTableClone>::clone_from_spec'):
            continue                # reached through clone and clone_from
        if p in RM:
            if p not in CONTRACT:
                continue
        out.append((p, f))
    return out


def analyse(prog, p, f, R):
    dropping = p.endswith('std::ops::Drop>::drop')
    I0 = RInterp(prog, {k: v for k, v in RM.items() if k != p})
    fid = '%s:%d' % (f['file'], f['line'])
    for label, st, args in inputs(I0, f):
        I = RInterp(prog, {k: v for k, v in RM.items() if k != p})
        I.opts = opts_of(p)
        before = at_entry(st, args)
        st0 = st.copy()
        try:
            rs = I.call_fn(st, f, args, 0)
        except Undecided as e:
            R.undecided.append((p, label, str(e)[:200]))
            continue
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError) as e:
            R.undecided.append((p, label, '%s: %s' % (type(e).__name__, str(e)[:160])))
            continue
        R.entered |= I.visited
        R.exits += len(rs)
        R.unwinds += len(I.pend)
        R.loops += len(I.loops_seen)
        for kind, s, v in [('return', s, v) for s, v in rs] + [('unwinding', s, None) for s in I.pend]:
            for e in s.eff:
                R.effects[e[0]] += 1
            gone = {('O', 'self')} if dropping else ()
            extra = [v] if v is not None else []
            vio, L = rawrules.check_exit(I, s, kind == 'unwinding', extra, I.opts, gone,
                                        before)
            if v is not None and 'handle' not in I.opts:
                value_rules(I, s, v, L, vio)
            for e in s.eff:
                if e[0] in ('tag', 'gstore', 'fill') and shared(I, s, e[1]):
                    vio.append(('memory', 'a control byte of the shared empty table may be written'))
                    break
            if kind == 'return':
                room_rules(p, s, v, vio)
                try:
                    vio += R.rules(I, p, st0, args, s, v)
                except (Undecided, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                    R.undecided.append((p, 'result', '%s: %s' % (type(e).__name__, str(e)[:160])))
            for k, m in vio:
                R.viol.append((k, p, m, fid, kind))
        for op, r, fits in I.wraps:
            if not fits:
                R.viol.append(('room', p, 'a size computed from the request may wrap around', fid, 'return'))
        for fn, k, m, w in I.viol:
            R.viol.append((k, strip_generics(fn['path']), m, '%s:%d' % (fn['file'], fn['line']), w))
    R.fns += 1


def run(prog, only=None):
    R = Report()
    for p, f in entries(prog):
        if only and not only(p):
            continue
        analyse(prog, p, f, R)
        R.paths.append(p)
    return R
