"""C01-C05: the ordered map and set."""
import collections
import framework
import mapcheck
import mapspec

RULES = {
    'C01': {'coherent', 'panics'},
    'C02': {'effect', 'panics'},
    'C03': {'match', 'coherent'},
    'C04': {'errors'},
    'C05': {'match', 'effect', 'coherent', 'errors', 'panics'},
}
ABOUT = {
    'C01': 'At every exit of every public operation, for a map of symbolic length in the small and in the indexed '
           'form, each position must be filed exactly once in the index under its own recorded hash, no slot may '
           'point elsewhere, and the small form must have an empty index.',
    'C02': 'At every normal exit of every operation with a written specification, the final entry sequence (as '
           'segments of the symbolic initial sequence) and the returned value must be the specified ones, in both '
           'forms; an exit in a region where the operation is specified to refuse is a violation.',
    'C03': 'An exit that treats entry i as the given key must carry the facts hash(i) = hash(key) and key equality; '
           'an exit that treats the key as absent must have searched the index under the hash of the key, or '
           'compared every position; index coherence carries the rule from one operation to the next.',
    'C04': 'Every exit on which user hash or equality returned Err must return that very Err, and a single-key '
           'operation must leave the entry sequence as it was.',
    'C05': 'The operations of the position-stable deletion mode, on maps that already contain a dead slot: lookups '
           'never match the dead slot, deletion changes only the slot it names, the index names exactly the live '
           'slots, compaction keeps exactly the entries the caller calls alive, in order.',
}
ASSUME = [
    'std collections and the hash table behave as modelled in analysis/models.py (the table itself is the subject of C10-C14)',
    'user callbacks do not modify the map they are called from (borrow rules) and may return anything, including Err',
    'a function the abstract domain cannot follow is counted as undecided, not as held',
]


def select(prop, path, form):
    if prop != 'C05':
        return True
    name = path.rsplit('::', 1)[-1]
    return form == 'hole' or 'tombstone' in name


def check(prop):
    prog = framework.mir_program()
    R = mapcheck.run(prog, RULES[prop], want=lambda t: select(prop, t[0], t[2]))
    missing = [p for p in ANCHORS if p not in R.seen]
    if missing:
        raise framework.AnchorMissing(', '.join(missing))
    res = framework.Result()
    for rule, op, form, msg, where in R.viol:
        res.bad('%s|%s|%s|%s' % (rule, op, form, msg), '%s %s (%s form)' % (where, op, form), msg)
    done = collections.Counter(o[0] for o in R.obl)
    res.coverage = {
        'explanation': 'Abstract interpretation of the compiler\'s MIR of every public map, set, entry and slice '
                       'operation. ' + ABOUT[prop],
        'operation_forms': R.ops, 'exit_states': R.exits, 'functions_analysed': len(R.fns),
        'undecided': ['%s (%s): %s' % u for u in R.undecided],
        'samples': ['%s at an exit of %s (%s)' % o for o in R.obl[::max(1, len(R.obl) // 5)]][:5],
    }
    for k, v in done.items():
        res.coverage['obligations_' + k] = v
    if prop in BELOW:
        import checks_raw
        checks_raw.add_clauses(res, BELOW[prop])
    res.assumptions = ASSUME
    return res


# clauses of the hash table that the property is also about
BELOW = {'C03': ('match', 'place'), 'C04': ('error',)}


ANCHORS = sorted((set(mapspec.KEY) | set(mapspec.OPS)) - {
    'map::core::IndexMapCore as Default::default', 'set::RubySet as Index<usize>::index',
    'set::RubySet as IndexMut<usize>::index_mut', 'set::slice::Slice as IndexMut<usize>::index_mut'})
CHECKS = {p: ('other', check) for p in RULES}
_T = 'abstract interpretation of MIR (linear-inequality positions, sequence segments, index pieces)'
_N = ('All map sizes, contents, keys and callback outcomes at once, small and indexed form, one operation at a time '
      'from an arbitrary coherent map. Trusts the models of Vec/slices/iterators/HashTable and the written '
      'specifications; functions the domain cannot follow are listed as undecided in the evidence.')
TECH = {p: (_T, _N) for p in RULES}
