"""What the operations of the hash table, map and set mean (C14, C19; the error clause of C04):
which elements an operation adds, removes, changes or refers to, compared with its result."""
from terms import *
from absint import Undecided
from raw import *
import rawrules
from rawrules import bare
from mir import strip_generics


class X:
    """One exit of an operation, seen as a change to the set of elements."""

    def __init__(self, I, s, v, start=0):
        self.I, self.s, self.raw = I, s, v
        self.eff = s.eff[start:]
        self.err = None
        self.v = v
        if is_agg(v, 'std::result::Result'):
            if v[3] == 'Err' and not is_agg(fget(v, '0'), 'raw::InsertSlot'):
                self.err = fget(v, '0')
                self.v = None
            elif v[3] == 'Ok':
                self.v = fget(v, '0')
        self.searched = [e[2] for e in self.eff if e[0] == 'search']
        self.relaid = any(e[0] == 'relaid' for e in self.eff)
        self.cands = self.candidates()
        self.hit = next((i for i, k, _ in self.cands if k == 'T'), None)
        self.adds, self.removes = self.slots()
        self.changed = self.changes()
        self.wide = any(e[0] in ('fill', 'loop', 'copyall', 'ctrlcopy', 'gstore', 'convert', 'bulk')
                        for e in self.eff)
        self.quiet = not (self.adds or self.removes or self.changed)

    def verdict(self, name, k):
        u = ('ucall', name, k)
        o = self.s.ord
        if self.failed(u) or self.err == ('fld', ('as', u, 'Err'), '0'):
            return 'E'
        for t in (u, ('fld', ('as', u, 'Ok'), '0')):
            r = o.truth(t)
            if r is not None:
                return 'T' if r else 'F'
        return '?'

    def failed(self, u):
        """Did user code answer with an error?"""
        return self.s.variants.get(u) == 1 and any(
            e[0] == 'user' and e[1] == u[1] and e[4] == u[2] and
            'Result' in self.I.restype.get((e[1], e[3]), '') for e in self.eff)

    def candidates(self):
        out = []
        for e in self.eff:
            if e[0] != 'user' or e[1] in ('hash', 'hasher', 'drop'):
                continue
            for a in e[2]:
                i = slot_in(a)
                if i is not None:
                    out.append((i, self.verdict(e[1], e[4]), e))
                    break
        return out

    def slots(self):
        s, I = self.s, self.I
        adds, rem = [], []
        state = {}
        for e in self.eff:
            if e[0] == 'tag':
                state[(e[1], e[2])] = I.cls_of(s, e[3])
        wr = {}
        for e in self.eff:
            if e[0] == 'el' and e[1] == 'write':
                wr[(e[2], e[3])] = e[4]
        first = {}
        for e in self.eff:
            if e[0] == 'tag' and (e[1], e[2]) not in first:
                first[(e[1], e[2])] = e
        for (t, i), c in state.items():
            was = self.was_full(t, i)
            if c == 'F' and (t, i) in wr and not was:
                adds.append((t, i, wr[(t, i)]))
            elif 'F' not in c and was:
                rem.append((t, i))
        return adds, rem

    def was_full(self, t, i):
        c = self.s.cls.get(('tag', t, i, 0))
        if c is not None:
            return c == 'F'
        return isinstance(i, tuple) and i[0] in ('hit', 'slot')

    def changes(self):
        out = {}
        for r, v in self.s.mem.items():
            if r[0] == 'D' and isinstance(r[1], tuple) and r[1][0] == 'eptr':
                it = ('item',) + r[1][1:]
                if v != it and not untouched(v, it):
                    out[r[1][1:]] = v
        for e in self.eff:
            if e[0] == 'el' and e[1] == 'write' and self.was_full(e[2], e[3]):
                out.setdefault((e[2], e[3]), e[4])
        return out


def untouched(v, it):
    return is_agg(v) and all(x == ('fld', it, n) for n, x in v[4])


def slot_in(a):
    """Table slot whose element (or part of it) the argument is."""
    a = bare(a)
    for _ in range(4):
        if isinstance(a, tuple) and a and a[0] == 'fld':
            a = bare(a[1])
    if isinstance(a, tuple) and a and a[0] in ('item', 'eptr'):
        return a[1:3]
    return None


def part(v):
    """(slot, field or None) of an element reference or value."""
    v = bare(v)
    if isinstance(v, tuple) and v:
        if v[0] == 'ref' and v[1][0] == 'D' and v[1][1][0] == 'eptr':
            return v[1][1][1:3], (v[2][0][1] if v[2] else None)
        if v[0] == 'eptr' or v[0] == 'item' or v[0] == 'bucket':
            return v[1:3], None
        if v[0] == 'fld' and isinstance(v[1], tuple) and v[1][0] == 'item':
            return v[1][1:3], v[2]
        if is_agg(v) and len(v[4]) == 2:
            a, b = part(v[4][0][1]), part(v[4][1][1])
            if a and b and a[0] == b[0] and (a[1], b[1]) == ('0', '1'):
                return a[0], '01'
    return None


def buckets(v, out=None, depth=0):
    """Slots named by the handles inside a value."""
    out = [] if out is None else out
    if isinstance(v, tuple) and v and depth < 10:
        if v[0] == 'bucket':
            out.append(v[1:3])
        elif is_agg(v):
            for _, x in v[4]:
                buckets(x, out, depth + 1)
    return out


def option(v):
    """('Some', payload) / ('None', None), or None when `v` is no known option."""
    if is_agg(v, 'std::option::Option'):
        return (v[3], fget(v, '0') if v[3] == 'Some' else None)
    return None


def inside(v, name, depth=0):
    """Values of the fields called `name` anywhere inside an aggregate."""
    out = []
    if is_agg(v) and depth < 10:
        for n, x in v[4]:
            if n == name:
                out.append(x)
            out += inside(x, name, depth + 1)
    return out


def overwritten(x, slot, fld, new):
    """The only change is field `fld` (None: all) of `slot`, to `new`."""
    if set(x.changed) != {slot}:
        return False
    v, it = x.changed[slot], ('item',) + slot
    if fld is None:
        return v == new
    if isinstance(v, tuple) and v[0] == 'ovr':
        return v[1] == it and v[2] == ((fld, new),)
    if is_agg(v):
        d = dict(v[4])
        return len(d) == 2 and d[fld] == new and all(y == ('fld', it, n) for n, y in d.items() if n != fld)
    return False


def pair(v, k, w):
    return is_agg(v) and len(v[4]) == 2 and v[4][0][1] == k and v[4][1][1] == w


def items_of(x, extra=True):
    """Entry counts of the caller's tables at the exit."""
    ts = rawrules.tables_of(x.s, [x.raw] if extra else [])
    return {t: fget(tv, 'items') for t, tv in ts.items()}


# ---------------------------------------------------------------- lookups
# operation -> part of the element it answers with (None: whole, 'bool', 'entry')
LOOKUP = {
    'map::HashMap::get': '1', 'map::HashMap::get_mut': '1', 'map::HashMap::get_key_value': '01',
    'map::HashMap::get_key_value_mut': '01', 'map::HashMap::contains_key': 'bool', 'map::HashMap as Index::index': '1',
    'set::HashSet::get': '0', 'set::HashSet::contains': 'bool',
    'table::HashTable::find': None, 'table::HashTable::find_mut': None,
    'raw::RawTable::find': None, 'raw::RawTable::get': None, 'raw::RawTable::get_mut': None,
    'map::HashMap::entry': 'entry', 'map::HashMap::entry_ref': 'entry', 'set::HashSet::entry': 'entry',
    'table::HashTable::entry': 'entry', 'table::HashTable::entry_sym': 'entry', 'table::HashTable::find_entry': 'entry',
    'raw::RawTable::find_or_find_insert_slot': 'entry', 'raw::RawTable::find_or_find_insert_slot_sym': 'entry',
}
REMOVE = {
    'map::HashMap::remove': '1', 'map::HashMap::remove_entry': '01', 'set::HashSet::remove': 'bool',
    'set::HashSet::take': '0', 'raw::RawTable::remove_entry': None,
}
INSERT = {'map::HashMap::insert', 'map::HashMap::try_insert', 'set::HashSet::insert', 'set::HashSet::replace',
          'set::HashSet::get_or_insert', 'set::HashSet::get_or_insert_with'}


def keyed(name):
    return name.startswith(('map::', 'set::'))


def want_hash(name, args):
    return ('khash', bare(args[1])) if keyed(name) else args[1]


def searched_well(x, name, args, out):
    """Every comparison is between the key asked for and an element found under its hash."""
    h = want_hash(name, args)
    for slot, k, e in x.cands:
        i = slot[1]
        if not (isinstance(i, tuple) and i[0] == 'hit'):
            continue
        if i[2] != h:
            out.append(('match', 'elements are looked up under a hash that is not the one of the key'))
        if keyed(name):
            a = [bare(y) for y in e[2]]
            if 'get_or_insert_with' in name and a[0] != bare(args[1]):
                continue
            if not (a[0] == bare(args[1]) and part(a[1]) == (slot, '0')):
                out.append(('match', 'a comparison is not between the key asked for and the key stored'))
        if k == '?':
            out.append(('match', 'the answer of a comparison is not looked at'))


def missed(x, h):
    """The search under `h` came to its end, or there is nothing to search."""
    if x.hit is not None:
        return False
    return h in x.searched or x.s.ord.proves(le(('items', 'S'), 0)) or x.s.ord.same(('items', 'S'), 0)


def answers(x, v, proj):
    """Is `v` the projection of the element that was found?"""
    if proj == 'bool':
        return v == ('bool', 1) or v == TRUE
    o = option(v)
    if o is not None:
        if o[0] != 'Some':
            return False
        v = o[1]
    p = part(v)
    if p is None:
        return False
    if proj == '01' and p[1] is None:
        return p[0] == x.hit
    return p == (x.hit, proj)


def denies(v, proj):
    if proj == 'bool':
        return v == ('bool', 0) or v == FALSE
    o = option(v)
    return o is not None and o[0] == 'None'


def lookup(x, name, args, out):
    searched_well(x, name, args, out)
    if not x.quiet:
        out.append(('result', 'a lookup changes elements'))
    if x.err is not None:
        return
    proj, h = LOOKUP[name], want_hash(name, args)
    if proj == 'entry':
        b = buckets(x.v)
        if b:
            if b != [x.hit]:
                out.append(('match', 'an occupied entry names an element that was not accepted'))
        elif not missed(x, h):
            out.append(('match', 'an entry is vacant although the search did not end without a match'))
        for k in inside(x.v, 'key') + inside(x.v, 'hash'):
            if k not in (bare(args[1]), h):
                out.append(('result', 'an entry carries a key or hash other than the one asked for'))
        return
    if x.hit is not None:
        if not answers(x, x.v, proj):
            out.append(('match', 'the element found is not the one answered'))
    elif name.endswith('::index'):
        out.append(('match', 'indexing answers without a match'))
    elif not denies(x.v, proj):
        out.append(('match', 'a match is answered that was not found'))
    elif not missed(x, h):
        out.append(('match', 'nothing is answered although the search did not end'))


def remove(x, name, args, out):
    searched_well(x, name, args, out)
    proj, h = REMOVE[name], want_hash(name, args)
    if x.adds or x.changed:
        out.append(('result', 'a removal adds or alters elements'))
    if x.err is not None:
        return
    if x.hit is None:
        if x.removes:
            out.append(('match', 'an element is removed that did not match'))
        if not denies(x.v, proj):
            out.append(('result', 'a removal is reported that did not happen'))
        elif not missed(x, h):
            out.append(('match', 'nothing is removed although the search did not end'))
    else:
        if x.removes != [x.hit]:
            out.append(('result', 'a removal does not remove exactly the element that matched'))
        if not answers(x, x.v, proj):
            out.append(('result', 'the element removed is not the one answered'))


def added(x, want):
    """Exactly one element was added; `want(value)` says whether it is the right one."""
    return len(x.adds) == 1 and want(x.adds[0][2])


def insert(x, name, args, out, answer=True):
    searched_well(x, name, args, out)
    if x.removes:
        out.append(('result', 'an insertion removes elements'))
    if x.err is not None:
        if not x.quiet:
            out.append(('error', 'an element is stored although the comparison failed'))
        return
    h, op = want_hash(name, args), name.split('::')[-1]
    key = args[1]
    val = args[2] if name.startswith('map::') else UNIT
    if op == 'get_or_insert_with':
        cb = [e for e in x.eff if e[0] == 'user' and e[1] == '<callback>']
        if (x.hit is None) != (len(cb) == 1):
            out.append(('result', 'the value is not made exactly when it is missing'))
        key = ('ucall', '<callback>', cb[0][4]) if cb else None
    if x.hit is None:
        if x.changed or not added(x, lambda v: pair(v, key, val)):
            out.append(('result', 'a missing element is not stored exactly once as given'))
            return
        if not missed(x, h):
            out.append(('match', 'an element is stored although the search did not end'))
        new = x.adds[0][:2]
        good = {'insert': x.v == ('bool', 1) if name.startswith('set') else denies(x.v, None),
                'replace': denies(x.v, None), 'get_or_insert': part(x.v) == (new, '0'),
                'get_or_insert_with': part(x.v) == (new, '0'),
                'try_insert': is_agg(x.v, 'std::result::Result') and x.v[3] == 'Ok' and
                part(fget(x.v, '0')) == (new, '1')}[op]
    else:
        if x.adds:
            out.append(('match', 'an element is stored beside the one that matched'))
        good, o = False, option(x.v)
        same = x.quiet or all(overwritten(x, x.hit, '1', UNIT) for _ in [0])
        if op == 'insert' and name.startswith('map'):
            good = overwritten(x, x.hit, '1', val) and o == ('Some', ('fld', ('item',) + x.hit, '1'))
        elif op == 'insert':
            good = same and x.v == ('bool', 0)
        elif op == 'replace':
            good = overwritten(x, x.hit, '0', key) and o == ('Some', ('fld', ('item',) + x.hit, '0'))
        elif op in ('get_or_insert', 'get_or_insert_with'):
            good = same and part(x.v) == (x.hit, '0')
        elif op == 'try_insert':
            good = x.quiet and is_agg(x.v, 'std::result::Result') and x.v[3] == 'Err' and \
                buckets(x.v) == [x.hit] and inside(x.v, 'value') == [val]
        if not answer:
            good = overwritten(x, x.hit, '1', val) or val == UNIT and x.quiet
    if not good and (answer or x.hit is not None):
        out.append(('result', 'the answer does not say what became of the element'))


# ---------------------------------------------------------------- entries
def deref(st, v):
    while isinstance(v, tuple) and v and v[0] == 'ref' and v[1] in st.mem and not v[2]:
        v = st.mem[v[1]]
    return v


def calls(x, name='<callback>'):
    return [e for e in x.eff if e[0] == 'user' and e[1] == name]


def given(x, name):
    """Value made by user code on this path."""
    c = calls(x, name)
    return ('ucall', name, c[0][4]) if len(c) == 1 else None


ENTRY = ('map::Entry', 'map::EntryRef', 'map::OccupiedEntry', 'map::VacantEntry', 'map::VacantEntryRef', 'set::Entry',
         'set::OccupiedEntry', 'set::VacantEntry', 'table::Entry', 'table::OccupiedEntry', 'table::VacantEntry',
         'table::AbsentEntry')


def entry_op(x, name, st0, args, out):
    ty, op = name.rsplit('::', 1)
    me = deref(st0, args[0])
    occ = buckets(me)
    slot = occ[0] if occ else None
    keys = inside(me, 'key')
    key = keys[0] if keys else None
    value = args[1] if len(args) > 1 else None
    fld = {'map': '1', 'set': '0', 'table': None}[ty.split('::')[0]]
    whole = fld is None
    said = 'the entry operation does not do what its result says'

    def need(c, msg=said):
        if not c:
            out.append(('result', msg))

    def stored(v):
        if whole:
            return v == value_
        k = given(x, 'std::convert::Into::into') if 'Ref' in ty else key
        return pair(v, k, value_)

    def newslot():
        return x.adds[0][:2] if len(x.adds) == 1 else None

    if op in ('key', 'get', 'get_mut', 'into_mut', 'into_key', 'into_value', 'into_table'):
        need(x.quiet, 'an accessor changes elements')
        f = '0' if op in ('key',) or ty.startswith('set') else fld
        if op == 'into_table':
            return
        if slot:
            if 'Ref' in ty and op == 'key':
                e = calls(x, 'std::borrow::Borrow::borrow')
                need(len(e) == 1 and part(e[0][2][0]) == (slot, '0'))
            else:
                need(part(x.v) == (slot, f), 'an accessor answers with something else than the entry\'s own part')
        else:
            v = x.v
            if isinstance(v, tuple) and v[0] == 'ref':
                v = x.I.read(x.s, v[1], v[2])
            need(v == key, 'a vacant entry answers with another key')
        return
    if op in ('and_modify',):
        need(not x.adds and not x.removes)
        need(deref(x.s, x.v) == me or buckets(x.v) == occ and x.v[3] == me[3], 'the entry handed back is another one')
        c = calls(x)
        if slot:
            need(len(c) == 1 and any(part(a) == (slot, fld) for a in c[0][2]),
                 'the callback is not given the entry\'s value')
        else:
            need(not c, 'the callback runs for a vacant entry')
        return
    if op in ('and_replace_entry_with', 'replace_entry_with'):
        if not slot:
            need(x.quiet and not calls(x))
            return
        c = calls(x)
        need(len(c) == 1 and any(part(a) == (slot, '1') for a in c[0][2]), 'the callback is not given the entry\'s value')
        if not c:
            return
        u = ('ucall', '<callback>', c[0][4])
        if x.removes:
            need(x.removes == [slot] and not x.changed and not buckets(x.v) and
                 inside(x.v, 'key') == [('fld', ('item',) + slot, '0')] and x.s.variants.get(u) == 0)
        else:
            need(overwritten(x, slot, '1', ('fld', ('as', u, 'Some'), '0')) and buckets(x.v) == [slot])
        return
    if op in ('remove', 'remove_entry') and slot:
        need(x.removes == [slot] and not x.adds and not x.changed, 'the entry\'s own element is not the one removed')
        v = x.v
        if whole:
            v = fget(v, '0') if is_agg(v) else v
        want = (slot, None if whole or op == 'remove_entry' else fld)
        need(part(v) == want or op == 'remove_entry' and part(v) == (slot, '01'), 'another part of the element is answered')
        if whole:
            need([s for s in inside(x.v, 'index')] == [slot[1]], 'the vacant entry is for another slot')
        return
    if op in ('insert', 'insert_entry', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'or_default'):
        value_ = UNIT if ty.startswith('set') else value
        if op in ('or_insert_with', 'or_insert_with_key'):
            value_ = given(x, '<callback>')
        if op == 'or_default':
            value_ = given(x, 'std::default::Default::default')
        if slot:
            need(not x.adds and not x.removes, 'an occupied entry adds or removes elements')
            if op.startswith('or_'):
                need(x.quiet and not calls(x) and not calls(x, 'std::default::Default::default'),
                     'an occupied entry is changed by a default')
                at = slot
            elif ty == 'map::OccupiedEntry':
                need(overwritten(x, slot, '1', value) and x.v == ('fld', ('item',) + slot, '1'))
                return
            elif ty.startswith('set'):
                need(x.quiet or overwritten(x, slot, '1', UNIT))
                at = slot
            else:
                need(overwritten(x, slot, fld, value), 'the new value does not replace the entry\'s value')
                at = slot
        else:
            need(not x.changed and not x.removes)
            need(added(x, stored), 'a vacant entry does not store its key with the value once')
            at = newslot()
            if op == 'or_insert_with_key' and calls(x):
                need(any(bare(a) in (key, bare(key)) for a in calls(x)[0][2]), 'the callback is not given the key')
        if x.v == UNIT:
            return
        b = buckets(x.v)
        if b:
            need(b == [at], 'the handle answered is for another element')
        else:
            need(part(x.v) in ((at, fld), (at, None)) and (whole or part(x.v) == (at, fld)),
                 'the reference answered is to another element')
        return
    raise Undecided('no rule for ' + name)


# ---------------------------------------------------------------- direct operations
def direct(x, name, st0, args, out):
    """Operations named by a handle, and insertions without a search."""
    op = name.rsplit('::', 1)[1]

    def need(c, msg):
        if not c:
            out.append(('result', msg))

    if op in ('erase', 'remove'):
        b = buckets(args[1])
        need(x.removes == b and not x.adds and not x.changed, 'another element than the one named is removed')
        if op == 'remove':
            need(part(fget(x.v, '0')) == (b[0], None) and inside(x.v, 'index') == [b[0][1]],
                 'another element than the one named is answered')
    elif op == 'replace_bucket_with':
        b, c = buckets(args[1])[0], calls(x)
        need(len(c) == 1 and any(part(a) == (b, None) for a in c[0][2]), 'the callback is not given the element')
        u = ('ucall', '<callback>', c[0][4]) if c else None
        if x.v == ('bool', 1):
            need(not x.removes and overwritten(x, b, None, ('fld', ('as', u, 'Some'), '0')),
                 'the element is not replaced by what the callback made')
        else:
            need(x.v == ('bool', 0) and x.removes == [b] and x.s.variants.get(u) == 0,
                 'the element is not removed although the callback gave none')
    else:
        if op == 'insert_unique_unchecked':
            good = (lambda v: pair(v, args[1], args[2])) if name.startswith('map') else (lambda v: pair(v, args[1], UNIT))
            proj = '01' if name.startswith('map') else '0'
        else:
            val = args[3] if op == 'insert_in_slot' else args[2]
            good, proj = (lambda v: v == val), None
        need(not x.removes and not x.changed and added(x, good), 'the element given is not stored exactly once')
        if len(x.adds) == 1:
            at = x.adds[0][:2]
            need(buckets(x.v) == [at] or part(x.v) == (at, proj), 'the handle answered is for another element')


DIRECT = {'raw::RawTable::erase', 'raw::RawTable::remove', 'raw::RawTable::replace_bucket_with', 'raw::RawTable::insert',
          'raw::RawTable::insert_entry', 'raw::RawTable::insert_in_slot', 'table::HashTable::insert_unique',
          'map::HashMap::insert_unique_unchecked', 'set::HashSet::insert_unique_unchecked'}


# ---------------------------------------------------------------- whole-table operations
def whole(x, name, st0, args, out):
    ty, op = name.rsplit('::', 1)
    o = x.s.ord

    def need(c, msg):
        if not c:
            out.append(('result', msg))

    if op in ('len', 'is_empty', 'capacity'):
        need(x.quiet, 'a size query changes elements')
        n = ('items', 'S')
        if op == 'len':
            need(o.same(x.v, n), 'the length is not the number of elements')
        elif op == 'capacity':
            need(o.same(x.v, add(n, ('gl', 'S'))), 'the capacity is not the elements plus the room left')
        else:
            t = (x.v in (('bool', 1), TRUE) and o.same(n, 0)) or (x.v in (('bool', 0), FALSE) and o.proves(le(1, n))) or \
                x.v in (('eq0', n), eq(n, 0), ('eq', n, 0))
            need(t, 'emptiness does not follow the number of elements')
    elif op in ('clear', 'clear_no_drop'):
        need(all(o.same(i, 0) for i in items_of(x).values()), 'elements are left after clearing')
    elif op in ('new', 'with_capacity', 'with_capacity_in', 'with_hasher', 'with_capacity_and_hasher', 'default'):
        need(all(o.same(i, 0) for i in items_of(x).values()), 'a new table is not empty')
    elif op in ('reserve', 'shrink_to', 'shrink_to_fit', 'resize', 'resize_inner', 'reserve_rehash_inner'):
        need(x.quiet and all(o.same(i, ('items', 'S')) for i in items_of(x).values()),
             'making or giving back room changes the elements')
    elif op in ('clone', 'clone_from'):
        src = 'S' if op == 'clone' else 'R'
        its = items_of(x)
        own = [i for t, i in its.items() if t != src]
        need(len(own) == 1 and o.same(own[0], ('items', src)), 'a copy has another number of elements')
        copied = any(e == ('exhausted', src) for e in x.eff)
        need(copied or o.same(('items', src), 0) or o.proves(le(('items', src), 0)) or
             o.same(('mask', src), 0), 'a copy is made without visiting every element')
        for c in loop_steps(x):
            for e in c.eff:
                if e[0] == 'yield' and e[1] == src:
                    cl = [y for y in c.eff if y[0] == 'user' and y[1] == 'std::clone::Clone::clone']
                    wr = [y for y in c.eff if y[0] == 'el' and y[1] == 'write']
                    need(len(cl) == 1 and len(wr) == 1 and part(cl[0][2][0]) == (e[1:3], None) and
                         wr[0][3] == e[2] and wr[0][4] == ('ucall', cl[0][1], cl[0][4]) and wr[0][2] in its,
                         'an element is not copied to its own slot of the copy')
    else:
        raise Undecided('no rule for ' + name)


def small(x, name, args, out):
    op, o = name.rsplit('::', 1)[1], x.s.ord
    if not x.quiet:
        out.append(('result', 'a query changes elements'))
    bad = False
    if op == 'buckets':
        bad = not o.same(x.v, add(('mask', 'S'), 1))
    elif op == 'bucket_index':
        bad = not o.same(x.v, buckets(deref(x.s, args[1]))[0][1])
    elif op == 'bucket':
        bad = buckets(x.v) != [('S', args[1])]
    elif op == 'is_bucket_full':
        c = x.I.cls_of(x.s, x.I.tag_at(x.s, 'S', args[1]))
        bad = not (x.v in (('bool', 1), TRUE) and c == 'F' or x.v in (('bool', 0), FALSE) and 'F' not in c)
    elif op == 'from':
        bad = set(items_of(x)) != {'S'}
    if bad:
        out.append(('result', 'the answer is not what the table holds'))


WHOLE = {'len', 'is_empty', 'capacity', 'clear', 'clear_no_drop', 'new', 'with_capacity', 'with_capacity_in',
         'with_hasher', 'with_capacity_and_hasher', 'default', 'reserve', 'shrink_to', 'shrink_to_fit', 'resize',
         'resize_inner', 'reserve_rehash_inner', 'clone', 'clone_from'}
TABLES = ('map::HashMap', 'set::HashSet', 'table::HashTable', 'raw::RawTable', 'raw::RawTableInner')
STARTS = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain',
          'extract_if'}


def starts(x, name, out):
    """A new iterator is about to visit the whole table."""
    its = find_iters(x.raw)
    if not (len(its) == 1 and fget(its[0], 'iter') == ('range', 'S') and
            x.s.ord.same(fget(its[0], 'items'), ('items', 'S'))):
        out.append(('visit', 'an iterator does not start over all elements of the table'))
    if not x.quiet:
        out.append(('visit', 'starting an iteration changes elements'))


def find_iters(v, depth=0):
    if is_agg(v, 'raw::RawIter'):
        return [v]
    if is_agg(v) and depth < 10:
        return [y for _, z in v[4] for y in find_iters(z, depth + 1)]
    return []


PROJ = {'Keys': '0', 'IntoKeys': '0', 'Values': '1', 'ValuesMut': '1', 'IntoValues': '1'}


def shape(ty):
    kind = ty.split('::')[-1]
    if kind in PROJ:
        return PROJ[kind]
    return {'map': '01', 'set': '0'}.get(ty.split('::')[0])


def shows(v, slot, proj):
    p = part(v)
    return p == (slot, proj) or proj == '01' and p == (slot, None)


def hashed(x, name, args, out):
    """An iterator over one hash starts where that hash is looked up."""
    for v in find_adt(x.raw, 'raw::RawIterHashInner'):
        ps = fget(v, 'probe_seq')
        if not (fget(v, 'tag_hash') == ('fulltag', args[1]) and fget(v, 'bucket_mask') == ('mask', 'S') and
                is_pa(fget(v, 'ctrl')) and fget(v, 'ctrl')[1] == ('ctrlp', 'S') and
                fget(ps, 'pos') == ('BitAnd', args[1], ('mask', 'S')) and fget(ps, 'stride') == 0):
            out.append(('visit', 'an iterator over a hash does not start where that hash is looked up'))
        return
    raise Undecided('no hash iterator')


def find_adt(v, path, depth=0):
    if is_agg(v, path):
        return [v]
    if is_agg(v) and depth < 10:
        return [y for _, z in v[4] for y in find_adt(z, path, depth + 1)]
    return []


def visits(x, name, st0, args, out):
    ty, op = name.split(' as ')[0], name.rsplit('::', 1)[1]
    proj, o = shape(ty), x.s.ord

    def need(c, msg):
        if not c:
            out.append(('visit', msg))

    ys = [e for e in x.eff if e[0] == 'yield']
    if op == 'next' and 'ExtractIf' in ty:
        r = option(x.v)
        if r and r[0] == 'Some':
            need(len(ys) == 1 and shows(r[1], ys[0][1:3], proj), 'the element handed over is not the one visited')
            slot = ys[0][1:3] if ys else None
            need(any(i == slot and k == 'T' for i, k, _ in x.cands), 'an element is taken that the callback refused')
            need(x.removes == [slot], 'an element is handed over but stays in the table')
        else:
            need(r and r[0] == 'None' and any(e[0] == 'exhausted' for e in x.eff), 'iteration ends early')
            need(not x.removes, 'an element is removed without being handed over')
        for c in loop_steps(x):
            y = [e for e in c.eff if e[0] == 'yield']
            need(len(y) == 1 and any(i == y[0][1:3] and k == 'F' for i, k, _ in c.cands) and c.quiet,
                 'an element is passed over that the callback did not refuse')
    elif op == 'next' and 'IterHash' in ty:
        r = option(x.v)
        if r and r[0] == 'Some':
            p = part(r[1])
            need(p is not None and p[1] is None and p[0][1][0] == 'hit', 'the element handed over is not the one found')
        else:
            need(r and r[0] == 'None' and not any(e[0] == 'hyield' for e in x.eff) and
                 any(e[0] == 'hexhausted' for e in x.eff), 'iteration ends early or skips an element')
    elif op == 'next':
        r = option(x.v)
        if r and r[0] == 'Some':
            need(len(ys) == 1 and shows(r[1], ys[0][1:3], proj), 'the element handed over is not the one visited')
        else:
            need(r and r[0] == 'None' and not ys and any(e[0] == 'exhausted' for e in x.eff),
                 'iteration ends early or skips an element')
    elif op in ('size_hint', 'len'):
        left = ('left', 'S')
        if op == 'len':
            u = [e for e in x.eff if e[0] == 'user' and e[1].endswith('::len')]
            need(o.same(x.v, left) or len(u) == 1 and x.v == ('ucall', u[0][1], u[0][4]) and
                 [fget(i, 'items') for i in find_iters(bare(u[0][2][0]))] == [left], 'the length is not what is left')
        else:
            hi = option(fget(x.v, '1')) if is_agg(x.v) else None
            lo = 0 if 'ExtractIf' in ty else left
            need(hi and hi[0] == 'Some' and o.same(hi[1], left) and o.same(fget(x.v, '0'), lo),
                 'the size hint is not what is left')
    elif op == 'fold':
        cb = calls(x)
        if ys:
            need(len(ys) == 1 and len(cb) == 1 and any(shows(a, ys[0][1:3], proj) for a in cb[0][2]) and
                 x.v == ('ucall', '<callback>', cb[0][4]), 'folding does not pass each element on once')
        elif x.v == args[1]:
            need(not cb, 'folding nothing calls the callback')
        else:
            u = [e for e in x.eff if e[0] == 'user' and e[1].endswith('Iterator::fold')]
            need(len(u) == 1 and x.v == ('ucall', u[0][1], u[0][4]) and bare(u[0][2][1]) == bare(args[1]),
                 'folding answers with something else than the last result')
    elif op in ('clone', 'default'):
        its = find_iters(x.raw)
        if op == 'clone' and its:
            need(fget(its[0], 'iter') == ('range', 'S') and o.same(fget(its[0], 'items'), ('left', 'S')),
                 'a cloned iterator does not stand where the original does')
        elif its:
            need(all(o.same(fget(i, 'items'), 0) for i in its), 'an empty iterator has elements')
    else:
        raise Undecided('no rule for ' + name)


def loop_steps(x, pick=None):
    """The generic iterations of the loops on this path."""
    out = []
    for e in x.eff:
        if e[0] == 'loop':
            info = x.I.loops_seen[e[5]][e[4]]
            for s in info['conts']:
                out.append(X(x.I, s, None, info['pre'] + 1))
    return out


def retain(x, name, st0, args, out):
    proj = '0' if name.startswith('set') else None
    if not any(e[0] == 'exhausted' for e in x.eff):
        out.append(('visit', 'retaining stops before every element was asked about'))
    steps = loop_steps(x)
    for c in steps:
        y = [e for e in c.eff if e[0] == 'yield']
        cb = calls(c)
        slot = y[0][1:3] if len(y) == 1 else None
        if slot is None or len(cb) != 1 or not any(slot_in(a) == slot for a in cb[0][2]):
            out.append(('visit', 'an element is not asked about exactly once'))
            continue
        k = c.verdict('<callback>', cb[0][4])
        if c.adds or c.changed or c.removes != ([slot] if k == 'F' else []) or k not in 'TF':
            out.append(('visit', 'an element is not kept exactly when the callback says so'))
    if not steps:
        raise Undecided('no loop')


# ---------------------------------------------------------------- whole-map comparison and loading
def compare_step(c, src, dst, vals):
    """'T' / 'F': the element visited has (no) equal in the other table; None: the path does not say so."""
    ys = [e for e in c.eff if e[0] == 'yield' and e[1] == src]
    if len(ys) != 1:
        return None
    slot = ys[0][1:3]
    h = ('khash', ('fld', ('item',) + slot, '0'))
    hit, last = None, None
    for e in c.eff:
        if e[0] != 'user' or e[1] in ('hash', 'hasher', 'drop') or len(e[2]) < 2:
            continue
        a, b = part(e[2][0]), part(e[2][1])
        k = c.verdict(e[1], e[4])
        if a == (slot, '0') and b is not None and b[1] == '0' and b[0][0] == dst:
            if not (isinstance(b[0][1], tuple) and b[0][1][:3] == ('hit', dst, h)) or hit is not None:
                return None
            if k == 'T':
                hit = b[0]
            elif k != 'F':
                return None
        elif vals and hit is not None and {a, b} == {(slot, '1'), (hit, '1')} and last is None:
            last = k
        elif not vals and hit is not None and {a, b} == {(slot, '1'), (hit, '1')}:
            if k == 'F':            # the values of a set are all alike
                return 'never'
        else:
            return None
    if hit is None:
        return 'F' if ('search', dst, h) in c.eff or c.s.ord.same(('items', dst), 0) else None
    if vals:
        return last if last in ('T', 'F') else None
    return 'T'


COMPARE = {'map::HashMap as PartialEq::eq': 'map', 'map::HashMap as RubyEql::eql': 'map',
           'set::HashSet as PartialEq::eq': 'set', 'set::HashSet as RubyEql::eql': 'set',
           'set::HashSet::is_subset': 'sub', 'set::HashSet::is_superset': 'super'}


def compare(x, name, out):
    how, o = COMPARE[name], x.s.ord
    src, dst = ('R', 'S') if how == 'super' else ('S', 'R')
    n, m = ('items', src), ('items', dst)
    if not x.quiet:
        out.append(('result', 'a comparison changes elements'))
    if x.err is not None:
        return
    if how in ('map', 'set') and any(e[0] == 'newiter' for e in x.eff) and \
            any(e[0] == 'newiter' and e[1] == 'R' for e in x.eff):
        src, dst = 'R', 'S'
    steps = loop_steps(x)
    for c in steps:
        if compare_step(c, src, dst, how == 'map') not in ('T', 'never'):
            out.append(('result', 'a comparison goes on although an element has no equal in the other table'))
    k = max([i for i, e in enumerate(x.eff) if e[0] in ('loop', 'cut')], default=-1)
    tail = X(x.I, x.s, x.raw, k + 1)
    if x.v in (('bool', 1), TRUE):
        empty = o.same(n, 0)
        if not (any(e == ('exhausted', src) for e in x.eff) or empty):
            out.append(('result', 'equality or inclusion is answered before every element was compared'))
        if how in ('map', 'set') and not (o.same(n, m) or o.feasible([neg(eq(n, m))]) is False):
            out.append(('result', 'equality is answered for different numbers of elements'))
    elif x.v in (('bool', 0), FALSE):
        differ = o.feasible([eq(n, m)]) is False if how in ('map', 'set') else \
            o.proves(lt(m, n)) or o.feasible([le(n, m)]) is False
        if not differ and compare_step(tail, src, dst, how == 'map') not in ('F', 'never'):
            out.append(('result', 'difference is answered without an element that differs'))
    else:
        raise Undecided('answer of ' + name)


LOAD = {'map::HashMap::from_iter', 'map::HashMap::from_ary', 'map::HashMap::extend', 'set::HashSet::from_iter',
        'set::HashSet::from_ary', 'set::HashSet::extend'}


def load(x, name, out):
    """Every element the source gives is inserted, in turn."""
    def nexts(c):
        return [e for e in c.eff if e[0] == 'user' and e[1].endswith('::next')]

    def one(c, tail=False):
        ns = nexts(c)
        if len(ns) != 1:
            out.append(('result', 'an element of the source is skipped or taken twice'))
            return
        got = ('fld', ('as', ('ucall', ns[0][1], ns[0][4]), 'Some'), '0')
        key, val = ('fld', got, '0'), ('fld', got, '1')
        if any(e[0] == 'user' and e[1] == 'hash' and e[2][0] == got for e in c.eff):
            key, val = got, UNIT
        insert(c, 'map::HashMap::insert', [None, key, val], out, False)

    steps = loop_steps(x)
    if not steps:
        raise Undecided('no loop')
    for c in steps:
        one(c)
    if x.err is not None:
        return
    k = max(i for i, e in enumerate(x.eff) if e[0] in ('loop', 'cut'))
    ns = nexts(X(x.I, x.s, x.raw, k + 1))
    if not (len(ns) == 1 and x.s.variants.get(('ucall', ns[0][1], ns[0][4])) == 0):
        out.append(('result', 'loading ends before the source does'))


# ---------------------------------------------------------------- errors of user code
def errors(x, out):
    """An error of user code becomes the error of the operation, and nothing else does."""
    failed = [u for u in x.s.variants if isinstance(u, tuple) and u[0] == 'ucall' and x.failed(u)]
    if x.err is not None:
        e = x.err
        if not (isinstance(e, tuple) and e[0] == 'fld' and e[1][0] == 'as' and e[1][2] == 'Err'):
            out.append(('error', 'an error is answered that user code did not raise'))
    elif failed and is_agg(x.raw):
        out.append(('error', 'an error of user code is swallowed'))
    us = [e for e in x.eff if e[0] == 'user' and 'Result' in x.I.restype.get((e[1], e[3]), '')]
    if any(x.verdict(e[1], e[4]) == 'E' for e in us[:-1]):
        out.append(('error', 'the operation goes on after an error of user code'))
    for c in loop_steps(x):
        if any(e[0] == 'user' and c.failed(('ucall', e[1], e[4])) for e in c.eff):
            out.append(('error', 'the operation goes on after an error of user code'))


def norm(p):
    """`<map::Iter<'a, K, V> as std::iter::Iterator>::next` -> `map::Iter as Iterator::next`."""
    import re
    q = p
    for _ in range(4):
        q = re.sub(r"<[A-Z&'_](?:(?! as )[^<>])*>", '', q)
    m = re.match(r'<(.*) as (.*)>::(\w+)$', q)
    return '%s as %s::%s' % (m.group(1), m.group(2).split('::')[-1], m.group(3)) if m else q


class Rules:
    """Counts the exits each rule was applied to."""

    def __init__(self):
        self.count = {}

    def __call__(self, I, p, st0, args, s, v):
        name = norm(p)
        out = []
        x = X(I, s, v)
        ty, op = name.rsplit('::', 1)
        kind = None
        ty0 = ty.split(' as ')[0].replace("&'a mut ", '').replace("&'a ", '')
        if name in LOOKUP:
            kind = 'lookup'
            lookup(x, name, args, out)
        elif name in REMOVE:
            kind = 'remove'
            remove(x, name, args, out)
        elif name in INSERT:
            kind = 'insert'
            insert(x, name, args, out)
        elif name in COMPARE:
            kind = 'compare'
            compare(x, name, out)
        elif name in LOAD:
            kind = 'load'
            load(x, name, out)
        elif name in DIRECT:
            kind = 'direct'
            direct(x, name, st0, args, out)
        elif ty in ENTRY:
            kind = 'entry'
            entry_op(x, name, st0, args, out)
        elif op == 'retain' and ty0 in TABLES:
            kind = 'retain'
            retain(x, name, st0, args, out)
        elif op in ('iter_hash', 'iter_hash_mut') and ty0 in TABLES:
            kind = 'start'
            hashed(x, name, args, out)
        elif op in STARTS and ty0 in TABLES:
            kind = 'start'
            starts(x, name, out)
        elif op in WHOLE and ty0 in TABLES:
            kind = 'whole'
            whole(x, name, st0, args, out)
        elif op in ('buckets', 'is_bucket_full', 'bucket_index', 'bucket', 'from'):
            kind = 'whole'
            small(x, name, args, out)
        elif ' as ' in name and ty.split(' as ')[1] in ('Iterator', 'ExactSizeIterator', 'Clone', 'Default') and \
                ty0 not in TABLES:
            kind = 'iterator'
            visits(x, name, st0, args, out)
        errors(x, out)
        if kind:
            self.count.setdefault(kind, set()).add(name)
        else:
            self.count.setdefault('none', set()).add(name)
        return sorted(set(out))
