"""C15: agreement of the backends that scan a group of tags."""
import framework
import grouprules
import rawprim


def c15(prop):
    res = framework.Result()
    n, bad = grouprules.c15()
    for key, f, msg in bad:
        res.bad(key, '%s%s:%d' % (grouprules.DIR, f.file, f.line), msg)
    prim = rawprim.prims(framework.mir_program(['hashbrown']))
    for fn, msg, where in prim.viol:
        res.bad('primitive|%s|%s' % (fn, msg), '%s %s' % (where, fn), msg)
    if not res.violations:
        if n['functions'] + len(n['undecided']) < 53:
            raise framework.AnchorMissing('fewer functions of the backends than the rules were written for')
        if prim.cases < 100 and not prim.undecided:
            raise framework.AnchorMissing('fewer primitive cases than the specifications state')
    res.coverage = {
        'explanation': 'Every function of the four backends and of the bit masks is evaluated over one lane of the group with '
                       'named or unknown bits and an arbitrary neighbour, per kind of tag (empty, deleted, full and equal, full '
                       'and first different at each bit), and compared with one specification of the answer; vector intrinsics '
                       'have their lane-wise meaning. The backend that is compiled here is judged a second time in the '
                       'compiler\'s MIR.',
        'backends': len(grouprules.BACKENDS), 'functions': n['functions'], 'cases': n['cases'],
        'compiled_functions': len(prim.done), 'compiled_cases': prim.cases,
        'undecided': [str(u) for u in n['undecided']] + ['primitive %s: %s' % u for u in prim.undecided],
    }
    res.assumptions = ['the vector intrinsics do what their vendors document',
                       'the portable backend may report further full slots as matching when a match exists in the group']
    return res


CHECKS = {'C15': ('other', c15)}
TECH = {'C15': ('abstract evaluation of every backend over one lane of unknown bits and an arbitrary neighbour',
                'All functions of the four backends and of the bit masks, both byte orders of the portable one. Loads and '
                'stores of whole groups are taken to copy the bytes.')}
