"""C10-C14: the hash table below the ordered map."""
import re
import framework
import rawcheck
import rawprim
import rawspec
import rawmem
import rawiter

ABOUT = {
    'C10': 'Every call into user code (hashing, equality, clone, drop, visitors) is also followed along its '
           'clean-up edges and drop guards to the unwinding exits; there, as at returns, no element may have been '
           'dropped or taken twice and no reachable table may have a full slot without an element.',
    'C11': 'At every return and unwinding exit of every public table operation, for every reachable table: the entry '
           'count equals the number of full slots, the room counter equals the capacity minus the slots that are not '
           'empty, and every control byte written was mirrored.',
    'C12': 'The probing functions are interpreted with their models removed: where probing starts, how it advances, when '
           'it stops and which slots it reports are compared between them, and every operation that places an element '
           'must use a slot found by probing for that element\'s own hash and tag it with that hash.',
    'C13': 'Bucket counts, layouts, allocation and release are compared as linear terms over the requested size, and at '
           'every exit of every operation each table is reachable, handed on or freed exactly once.',
    'C14': 'The element iterators are interpreted with their models removed: they start with the full slots of the first '
           'group, step by whole groups, yield the slot each bit stands for and count what they yield.',
    'C19': 'Each return of each operation of the table, map, set and entry interfaces is read as a change to the set of '
           'elements (which slots were filled, emptied or overwritten, with what) and compared with what the operation '
           'is for: the element that the comparison accepted is the one answered, replaced or removed, a missing one is '
           'stored once, everything else stays.',
}
ASSUME = [
    'each operation starts from a sound table of arbitrary size and contents, with arbitrary callbacks',
    'the primitives below the table (tags, groups, buckets, probing, layout, element iterators) behave as their own '
    'specifications say (C12-C14)',
    'a function the abstract domain cannot follow is counted as undecided, not as held',
]
# functions that must be there, with at least this many table operations in total
ANCHORS = ['raw::RawTable::insert', 'raw::RawTable::remove', 'raw::RawTable::clear', 'raw::RawTable::drain',
           'raw::RawTable::shrink_to', 'raw::RawTable::insert_in_slot', 'raw::RawTable::erase',
           'raw::RawTableInner::resize_inner', 'raw::RawTableInner::reserve_rehash_inner',
           '<raw::RawTable as std::clone::Clone>::clone', '<raw::RawTable as std::ops::Drop>::drop',
           'table::HashTable::insert_unique', 'map::HashMap::insert', 'map::HashMap::entry', 'set::HashSet::insert', 'table::HashTable::find_entry', 'table::HashTable::retain']
def strip_all(p):
    return re.sub(r'<[A-Z\'][^<>]*>', '', p)


FLOOR = {'fns': 280, 'unwinds': 700, 'loops': 30, 'tag': 60}


# operations per kind of result rule
RULED = {'lookup': 18, 'remove': 4, 'insert': 5, 'direct': 7, 'entry': 44, 'whole': 48, 'start': 24, 'iterator': 90,
         'retain': 3, 'compare': 5, 'load': 5}


def wanted(prop, clause, kind, msg):
    if prop == 'C10':
        return clause == 'element' or kind == 'unwinding' and clause in ('memory', 'items', 'growth', 'mirror', 'undecided')
    if prop == 'C11':
        return clause in ('items', 'growth', 'mirror', 'undecided') or clause == 'element' and 'marked full' in msg
    if prop == 'C12':
        return clause in ('place', 'match', 'growth', 'mirror')
    if prop == 'C13':
        return clause in ('memory', 'room')
    if prop == 'C14':
        return clause in ('visit', 'items')
    if prop == 'C19':
        return clause in ('result', 'match', 'error', 'place', 'items') or clause == 'element' and kind != 'unwinding'
    return False


def anchored(R):
    """Raises when what the rules were written for is no longer there; undecided operations are reported as such."""
    have = {strip_all(p) for p in R.paths}
    missing = [p for p in ANCHORS if p not in have]
    if missing:
        raise framework.AnchorMissing(', '.join(missing))
    have = {'fns': R.fns, 'unwinds': R.unwinds, 'loops': R.loops, 'tag': R.effects['tag']}
    low = [k for k in FLOOR if have[k] < FLOOR[k]]
    low += ['operations of kind ' + k for k, n in RULED.items()
            if len(R.rules.count.get(k, ())) + len(R.undecided) < n]
    if low:
        raise framework.AnchorMissing('fewer %s than the rules were written for' % ', '.join(low))


SPECS = {'C12': (rawspec.c12, 28), 'C13': (rawmem.c13, 28), 'C14': (rawiter.c14, 22)}


def check(prop):
    prog = framework.mir_program(['hashbrown'])
    R = rawcheck.run(prog)
    res = framework.Result()
    undecided, obligations, missing = [], {}, []
    for q, (fn, floor) in SPECS.items():
        # the other specifications are premises of this property's argument
        o = rawspec.Out(prog)
        try:
            fn(o)
        except rawspec.Missing as e:
            missing.append(str(e))
        obligations[q] = len(o.done.get(q, ()))
        if obligations[q] < floor and not o.undecided and not o.viol:
            missing.append('fewer obligations than the specifications state')
        for _, clause, name, msg, where in o.viol:
            res.bad('%s|%s|%s' % (clause, name, msg), '%s %s' % (where, name), msg)
        undecided += o.undecided
    prim = rawprim.prims(prog)
    for fn, msg, where in prim.viol:
        res.bad('primitive|%s|%s' % (fn, msg), '%s %s' % (where, fn), msg)
    for clause, fn, msg, where, kind in R.viol:
        if wanted(prop, clause, kind, msg):
            res.bad('%s|%s|%s' % (clause, fn, msg), '%s %s (at %s)' % (where, fn, kind), msg)
    if not res.violations:
        if missing:
            raise framework.AnchorMissing(', '.join(missing))
        anchored(R)
        if prim.cases < 100 and not prim.undecided:
            raise framework.AnchorMissing('fewer primitive cases than the specifications state')
    res.coverage = {
        'explanation': 'Abstract interpretation of the compiler\'s MIR of every public operation of the hash table '
                       'with a ledger of control bytes, counters and elements. ' + ABOUT[prop],
        'operations': R.fns, 'returns': R.exits, 'unwinding_exits': R.unwinds, 'loops_summarised': R.loops,
        'functions_entered': len(R.entered), 'control_byte_writes': R.effects['tag'],
        'element_moves': R.effects['el'], 'user_code_calls': R.effects['user'],
        'undecided': ['%s %s: %s' % u for u in R.undecided],
        'samples': R.paths[::max(1, len(R.paths) // 5)][:5],
    }
    res.coverage['primitive_functions'] = len(prim.done)
    res.coverage['primitive_cases'] = prim.cases
    res.coverage['undecided'] += ['primitive %s: %s' % u for u in prim.undecided]
    if prop in ('C14', 'C19'):
        res.coverage['operations_by_result_rule'] = {k: len(v) for k, v in R.rules.count.items() if k != 'none'}
        res.coverage['operations_without_result_rule'] = sorted(R.rules.count.get('none', ()))
    res.coverage['specification_obligations'] = obligations
    res.coverage['undecided'] += ['%s %s: %s' % u for u in undecided]
    res.assumptions = ASSUME
    return res


def add_clauses(res, clauses, only=None):
    """Adds the given clauses over the hash table to the result of a check of the ordered map."""
    prog = framework.mir_program(['hashbrown'])
    R = rawcheck.run(prog)
    for clause, fn, msg, where, kind in R.viol:
        if clause in clauses and (only is None or only(fn)):
            res.bad('%s|%s|%s' % (clause, fn, msg), '%s %s (at %s)' % (where, fn, kind), msg)
    if not res.violations:
        anchored(R)
    res.coverage['hash_table_operations'] = R.fns
    res.coverage['hash_table_returns'] = R.exits
    res.coverage['undecided'] += ['%s %s: %s' % u for u in R.undecided]


CHECKS = {p: ('other', check) for p in ABOUT}
_T = 'abstract interpretation of MIR including unwinding edges (slot ledger, tag classes, linear counters)'
_N = ('All table sizes, contents and callback outcomes (including a panic at every call into user code) at once, one '
      'operation at a time from an arbitrary sound table; loops by an inferred inductive invariant. Trusts the models '
      'of the primitives (specified by C12-C14) and SSE2 group width 16.')
TECH = {p: (_T, _N) for p in ABOUT}
