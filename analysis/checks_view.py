"""C06-C09: lending, iterators and views of the ordered map and set."""
import framework
import mapcheck
import mapdisj
import mapquant
import mapview
import checks_raw
import layoutrules
import traitrules

ASSUME = [
    'slice and vector iterators of the standard library present their range from both ends as documented',
    'std methods the iterator types inherit (fold, for_each, rposition ...) go through the methods analysed here',
    'a function the abstract domain cannot follow is counted as undecided, not as held',
]


# views of one entry or a part, specified together with the other operations in mapspec
VIEWS = {'drain', 'get_range', 'get_range_mut', 'get_index', 'get_index_mut', 'first', 'first_mut', 'last', 'last_mut',
         'split_at', 'split_at_mut', 'split_first', 'split_first_mut', 'split_last', 'split_last_mut', 'index',
         'index_mut', 'len', 'is_empty'}


def c07(prop):
    prog = framework.mir_program()
    O = mapview.c07(prog)
    R = mapcheck.run(prog, {'effect', 'panics'}, want=lambda t: t[0].rsplit('::', 1)[-1] in VIEWS)
    res = framework.Result()
    for rule, op, form, msg, where in R.viol:
        res.bad('%s|%s|%s|%s' % (rule, op, form, msg), '%s %s (%s form)' % (where, op, form), msg)
    for rule, op, msg, where in O.viol:
        res.bad('%s|%s|%s' % (rule, op, msg), '%s %s' % (where, op), msg)
    if not res.violations and (len(O.done) + len(O.undecided) < 190 or R.ops < 50):
        raise framework.AnchorMissing('fewer iterator methods and views than the rules were written for')
    res.coverage = {
        'explanation': 'Abstract interpretation of the MIR of every method of every iterator type, started on an '
                       'arbitrary part [lo, hi) of an arbitrary entry sequence, and of every operation that makes an '
                       'iterator or a slice view. The item presented, what is left afterwards, the reported length and '
                       'the entries covered must be those of the part, in order, seen through the key, value or pair '
                       'projection the type stands for.',
        'methods_and_views': len(O.done), 'exit_states': O.exits, 'functions_analysed': len(O.fns),
        'positional_views': R.ops, 'positional_view_exits': R.exits,
        'undecided': ['%s: %s' % u for u in O.undecided] + ['%s (%s): %s' % u for u in R.undecided],
        'samples': sorted(O.done)[::max(1, len(O.done) // 5)][:5],
    }
    res.assumptions = ASSUME
    return res


LENT = {'get_index_mut', 'get_index_entry', 'get_range_mut', 'first_mut', 'last_mut', 'split_at_mut', 'split_first_mut',
        'split_last_mut', 'index_mut', 'get_index_of', 'get_full_mut', 'get_full_mut2', 'get_mut'}


def c06(prop):
    prog = framework.mir_program()
    O = mapdisj.c06(prog)
    R = mapcheck.run(prog, {'effect', 'panics'}, want=lambda t: t[0].rsplit('::', 1)[-1] in LENT)
    res = framework.Result()
    for rule, op, form, msg, where in R.viol:
        res.bad('%s|%s|%s|%s' % (rule, op, form, msg), '%s %s (%s form)' % (where, op, form), msg)
    for rule, op, msg, where in O.viol:
        res.bad('%s|%s|%s' % (rule, op, msg), '%s %s' % (where, op), msg)
    if not res.violations and len(set(O.done) | {u[0] for u in O.undecided}) < 3:
        raise framework.AnchorMissing('fewer lending operations than the rules were written for')
    res.coverage = {
        'explanation': 'Abstract interpretation of the MIR of the operations that lend several entries, on an array of '
                       'requests of arbitrary length. At every successful exit a completed loop over the whole array '
                       'must have shown for its generic element that the position is below the number of entries and '
                       'does not occur among the others; the entry lent for a request is the one at that position; a '
                       'refusal names a condition that holds on its path. Operations that lend one entry or a part '
                       'mutably must lend exactly the one asked for.',
        'lending_operations': len(O.done), 'exit_states': O.exits, 'functions_analysed': len(O.fns),
        'single_or_part_operations': R.ops, 'single_or_part_exits': R.exits,
        'undecided': ['%s: %s' % u for u in O.undecided] + ['%s (%s): %s' % u for u in R.undecided],
        'samples': sorted(O.done),
    }
    res.assumptions = ASSUME
    return res


# operations on one member, specified together with the other operations in mapspec
def of_sets(t):
    return t[0].startswith('set::RubySet')


def below(fn):
    """Set, comparison and bulk operations of the hash table."""
    return 'set::' in fn or fn.rsplit('::', 1)[-1] in ('eq', 'eql', 'extend', 'from_iter', 'from_ary')


def c08(prop):
    prog = framework.mir_program()
    O = mapquant.c08(prog)
    R = mapcheck.run(prog, {'effect', 'errors', 'match'}, want=of_sets)
    res = framework.Result()
    for rule, op, form, msg, where in R.viol:
        res.bad('%s|%s|%s|%s' % (rule, op, form, msg), '%s %s (%s form)' % (where, op, form), msg)
    for rule, op, msg, where in O.viol:
        res.bad('%s|%s|%s' % (rule, op, msg), '%s %s' % (where, op), msg)
    res.coverage = {
        'explanation': 'Abstract interpretation of the MIR of every comparison of two maps, sets or slices and of every '
                       'bulk insertion. A positive verdict needs a completed loop over all of one operand whose generic '
                       'element was found in (or found missing from) the other one, and the required relation of the '
                       'sizes; a negative verdict needs a witness or a size difference on its path. Bulk insertion must '
                       'insert the item of each step once. Operations on single members are compared with their effect '
                       'on the sequence of members; the set of the hash table is analysed with the slot ledger.',
        'comparisons_and_bulk_operations': len(O.done), 'exit_states': O.exits, 'completed_scans': O.scans,
        'functions_analysed': len(O.fns | R.fns), 'single_member_operations': R.ops, 'single_member_exits': R.exits,
        'undecided': ['%s: %s' % u for u in O.undecided] + ['%s (%s): %s' % u for u in R.undecided],
        'samples': sorted(O.done)[::max(1, len(O.done) // 5)][:5],
    }
    checks_raw.add_clauses(res, ('result', 'match', 'error'), below)
    if not res.violations:
        have = set(O.done) | {u[0] for u in O.undecided}
        missing = sorted((set(mapquant.COMPARE) | mapquant.BULK) - have)
        if missing or len(O.done) + len(O.undecided) < 29 or R.ops < 60:
            raise framework.AnchorMissing('set operations the rules were written for: ' + ', '.join(missing))
    res.assumptions = ASSUME + ['lookups and single insertions behave as C03 and C02 specify']
    return res


def c16(prop):
    prog = framework.mir_program()
    O = traitrules.c16(prog)
    res = framework.Result()
    for rule, op, msg, where in O.viol:
        res.bad('%s|%s|%s' % (rule, op, msg), '%s %s' % (where, op), msg)
    if not res.violations and (len(O.done) + len(O.undecided) < 105 or len(O.both) + len(O.undecided) < 47):
        raise framework.AnchorMissing('fewer equality and hash functions than the rules were written for')
    res.coverage = {
        'explanation': 'Abstract interpretation of the MIR of every equality and hash function of the support library '
                       'and of the slices. Sequences: a positive verdict needs equal lengths and a completed loop in '
                       'which the elements at the same position compared equal, a negative one a difference; every '
                       'element is hashed once, in order. Optional keys: presence decides, present keys are compared '
                       'and hashed as themselves. Plain keys: the value itself is compared and hashed. Nothing else '
                       'reaches the hasher, and errors are passed on.',
        'functions': len(O.done), 'exit_states': O.exits, 'types_with_both': len(O.both),
        'functions_entered': len(O.fns),
        'undecided': ['%s: %s' % u for u in O.undecided],
        'samples': sorted(O.done)[::max(1, len(O.done) // 5)][:5],
    }
    res.assumptions = ASSUME[2:] + ['equality and hash of the standard library types agree with each other']
    return res


def c09(prop):
    prog = framework.mir_program()
    O = layoutrules.c09(prog)
    res = framework.Result()
    for rule, fn, msg, file, line in O.viol:
        res.bad('%s|%s|%s' % (rule, fn, msg), '%s:%d %s' % (file, line, fn), msg)
    if not res.violations and not O.exits and not O.undecided:
        raise framework.AnchorMissing('the function publishing the layout')
    res.coverage = {
        'explanation': 'Abstract interpretation of the MIR of the function that publishes the layout, with the offsets '
                       'and sizes of types kept as opaque terms naming type and field, and the three words of the probed '
                       'vector as unknown numbers. Every exit that publishes: stride, key and value offset are the size '
                       'and the field offsets of the entry type over its own type parameters; pointer and length '
                       'offset are the path to the entry vector plus a word which the tests on that path force to be the '
                       'pointer and the length and no other word.',
        'exit_states': O.exits, 'publishing_exits': O.some, 'published_numbers': sum(O.fields.values()),
        'functions_entered': len(O.fns),
        'undecided': ['%s: %s' % u for u in O.undecided],
        'types': list(getattr(O, 'types', ())),
    }
    res.assumptions = ['offset_of and size_of are what the compiler uses', 'a vector is three words: pointer, capacity '
                       'and length in some order']
    return res


CHECKS = {'C09': ('other', c09), 'C06': ('other', c06), 'C07': ('other', c07), 'C08': ('other', c08), 'C16': ('other', c16)}
TECH = {'C09': ('abstract interpretation of MIR (offsets and sizes as terms naming type and field)',
                'All key and value types, all orders of the vector words. Does not cover how the code generator uses the '
                'numbers.'),
        'C08': ('abstract interpretation of MIR (universal facts from completed scans, witnesses on negative exits)',
                'All sizes and contents of both operands at once. Lookups and single insertions are taken as C03 and '
                'C02 specify them; iterator adaptors of the standard library are modelled.'),
        'C16': ('abstract interpretation of MIR (generic element of both operands, log of what reaches the hasher)',
                'All values and lengths at once, for every type the library implements the traits for. Agreement of '
                'equality and hash inside the standard library is trusted.'),
        'C06': ('abstract interpretation of MIR (generic element of the request array, universal facts from completed scans)',
                'All array lengths and positions at once. Trusts models of array map, slice contains and pointer '
                'offsets; lookups by key are taken as C03 specifies them.'),
        'C07': ('abstract interpretation of MIR (iterator positions as linear terms over an arbitrary range)',
                'All ranges, positions and step counts at once, one call at a time; trusts the models of std slice and '
                'vector iterators. Methods inherited from the Iterator trait are not analysed themselves.')}
