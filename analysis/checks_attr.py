"""C17, C18: checks of the attribute macros over every declaration in the repository."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

import attrrules
import framework


def program():
    from mir import Program
    os.makedirs(framework.WORK, exist_ok=True)
    out = tempfile.mkdtemp(prefix='mir.', dir=framework.WORK)
    atexit.register(shutil.rmtree, out, ignore_errors=True)
    p = subprocess.run(['bash', os.path.join(framework.VERIF, 'tools', 'mir.sh'), out, 'attr'], stdout=sys.stderr)
    if p.returncode:
        raise RuntimeError('MIR dump of the macro expansions failed')
    return Program(out, ['attrprobe']), attrrules.load(out)


def report(O):
    res = framework.Result()
    groups = {}
    for rule, fn, msg, where in O.viol:
        groups.setdefault((rule, msg), []).append((fn, where))
    for (rule, msg), fs in groups.items():
        res.bad('%s|%s' % (rule, msg), fs[0][1], '%s (%d generated functions, first %s)' %
                (msg, len(fs), ', '.join(f for f, _ in fs[:3])))
    return res


ASSUME = ['the functions the generated code calls are opaque: their effects are those their names and signatures have in '
          'the runtime crate, which cannot be type-checked here',
          'declarations are found by attribute name in the runtime crate\'s source']


def c17(prop):
    prog, d = program()
    O = attrrules.c17(prog, d)
    res = report(O)
    if not res.violations and len(O.done) + len(O.undecided) < 1300:
        raise framework.AnchorMissing('fewer built-in methods than the rules were written for')
    res.coverage = {
        'explanation': 'Every built-in method declared in the runtime crate is declared again with a stub body, the '
                       'compiler applies the attribute macro, and the MIR of each generated wrapper is interpreted with '
                       'the result of the body split into success and failure and the error kind into a return aimed at '
                       'this frame, one aimed elsewhere and anything else. Each exit is judged: value unchanged; own '
                       'return yields its value; otherwise trace entry, then pending error, then no value.',
        'wrappers': len(O.done), 'exit_states': O.exits, 'calls_followed': O.calls,
        'undecided': ['%s: %s' % u for u in O.undecided[:20]],
    }
    res.assumptions = ASSUME
    return res


def c18(prop):
    prog, d = program()
    O = attrrules.c18(prog, d)
    res = report(O)
    barred = [n for n, b, _ in d['objects'] if b]
    if not res.violations and (len(d['objects']) < 9 or not barred):
        raise framework.AnchorMissing('fewer object types than the rules were written for')
    res.coverage = {
        'explanation': 'Every object type declared in the runtime crate is declared again over a stub value type, the '
                       'compiler applies the attribute macro, and the MIR of every generated accessor is interpreted: '
                       'mutable access of a barrier type is preceded by the barrier on the wrapped object on every exit; '
                       'access, conversion and marking go to the wrapped object itself.',
        'object_types': len(d['objects']), 'barrier_types': len(barred), 'accessors': len(O.done),
        'exit_states': O.exits, 'undecided': ['%s: %s' % u for u in O.undecided[:20]],
    }
    res.assumptions = ASSUME
    return res


CHECKS = {'C17': ('other', c17), 'C18': ('other', c18)}
TECH = {'C17': ('abstract interpretation of the MIR of every macro expansion (opaque calls in order)',
                'All built-in methods and all errors they can return. The runtime functions called by the wrapper are '
                'opaque.'),
        'C18': ('abstract interpretation of the MIR of every macro expansion (must-precede rule for the barrier)',
                'All declared object types. Code that reaches the contents without the generated accessors is not '
                'covered here.')}
