"""C20-C34: rules over the syntax trees of the interpreter crate."""
import argrules
import boprules
import discard
import framework
import frozrules
import gcrules
import hashiter
import lower
import numrules
import oprules
import schedrules
import sigrules
import syntree
import verrules
import wbrules

ASSUME = ['the interpreter crate cannot be type-checked here: names are resolved by file, owner type and number of '
          'arguments', 'code inside macro definitions is not looked into']


def floor(res, what, n, least):
    if n < least and not res.violations:
        raise framework.AnchorMissing('%s: %d found, at least %d expected' % (what, n, least))


def c20(prop):
    t = syntree.tree()
    r = gcrules.c20(t)
    n, more = gcrules.dispatch(t)
    res = framework.Result()
    for f, own, p, kind, x in r['bad']:
        what = 'is not marked' if kind == 'unmarked' else 'is marked only under a condition on something else'
        res.bad('%s|%s|%s' % (kind, own, '.'.join(p[1:])), f.where,
                'the reference held by %s.%s %s' % (own, '.'.join(p[1:]), what))
    for f, line, key, msg in more:
        res.bad(key, 'monoruby/src/%s:%d' % (f.file, line), msg)
    floor(res, 'marking functions', r['types'], 35)
    floor(res, 'fields holding references', r['fields'], 115)
    floor(res, 'type tags with references', n, 18)
    res.coverage = {
        'explanation': 'Which types can hold object references is a fixpoint over all type definitions. For every type '
                       'with a marking function, each such field (each variant payload, tuple component and nested type '
                       'without a marking function of its own) must flow into a marking call, and not only under a '
                       'condition on something else; every type tag that is constructed reaches an arm that marks its '
                       'payload.',
        'marking_functions': r['types'], 'fields_holding_references': r['fields'], 'types_holding_references': r['bearing'],
        'type_tags_with_references': n, 'confirmed_exemptions': len(gcrules.EXEMPT) + len(gcrules.CONDITIONAL),
    }
    res.assumptions = ASSUME + ['references that live only in registers and on the machine stack are not judged']
    return res


def c21(prop):
    r = gcrules.c21(syntree.tree())
    res = framework.Result()
    for f, line, key, msg in r['bad']:
        res.bad(key, 'monoruby/src/%s:%d' % (f.file, line), msg)
    floor(res, 'constructors of objects', len(r['G'].made), 48)
    floor(res, 'arms on type tags', r['arms'], 150)
    floor(res, 'payloads owning memory', r['owned'], 13)
    res.coverage = {
        'explanation': 'The payload each type tag stands for is read off the constructors. In every dispatch on the tag '
                       'inside the object type (freeing, marking, copying, ageing, printing) each arm may only touch that '
                       'payload; tags whose payload owns memory by a fixpoint over the type definitions must be dropped '
                       'when freed, together with the table of instance variables.',
        'constructors': len(r['G'].made), 'type_tags': len(r['one']), 'dispatch_arms': r['arms'],
        'payload_accesses': r['accesses'], 'owning_payloads': r['owned'],
    }
    res.assumptions = ASSUME
    return res


def c22(prop):
    t = syntree.tree()
    r = argrules.run(t)
    res = framework.Result()
    for fl, ln, label, f, msg, kind, slot in r['bad']:
        res.bad('%s|%s|%s|%d' % (kind, label, f.name, slot), 'monoruby/src/%s:%d' % (fl, ln),
                '`%s` (%s): %s' % (label, f.full, msg))
    floor(res, 'registrations of built-in methods', len(r['regs']), 1300)
    floor(res, 'argument slot reads', r['reads'], 1300)
    res.coverage = {
        'explanation': 'Every registration of a built-in method is followed through the forwarding define functions to '
                       'the function record, which gives the number of reserved slots and of required arguments; every '
                       'slot read of the registered function, and of the functions it hands its frame to with constant '
                       'indices passed along, must lie below the reserved number, and a slot of an optional argument is '
                       'read unconditionally nowhere.',
        'registrations': len(r['regs']), 'registered_functions_found': r['functions'], 'slot_reads_judged': r['reads'],
        'reads_with_computed_index_not_judged': r['opaque'],
        'registrations_not_resolved': ['%s:%d %s' % u for u in r['unresolved'][:20]],
        'functions_not_found': len(r['unaddressed']),
    }
    res.assumptions = ASSUME
    return res


def c28(prop):
    t = syntree.tree()
    G, total, out = discard.sites(t)
    res = framework.Result()
    left = {k: n for k, (n, _) in discard.DELIBERATE.items()}
    diag = table = 0
    seen = {}
    for f, ln, name, form, d in out:
        k = (f.file, name, form)
        if d:
            diag += 1
        elif left.get(k, 0):
            left[k] -= 1
            table += 1
        else:
            key = '%s|%s|%s|%s' % (f.file, f.name, name, form)
            seen[key] = seen.get(key, 0) + 1
            res.bad(key + ('#%d' % seen[key] if seen[key] > 1 else ''), 'monoruby/src/%s:%d' % (f.file, ln),
                    'the error of `%s` is dropped (%s) in %s' % (name, form, f.full))
    if not G.reach or not total:
        raise framework.AnchorMissing('no calls into Ruby code found')
    floor(res, 'functions that run Ruby code', len(G.reach), 1000)
    floor(res, 'calls of them', total, 1900)
    res.coverage = {
        'explanation': 'Functions that return a Result and from which an entry point that runs Ruby code is reachable '
                       'are found by a fixpoint over the call graph; each of their call sites is classified by what '
                       'happens to the error. A site where the error value is unavailable to what follows is a violation '
                       'unless the call is a diagnostic (a warning), a lookup by symbol, or one of the confirmed '
                       'deliberate handlers.',
        'functions_running_ruby': len(G.reach), 'call_sites': total, 'sites_dropping_an_error': len(out),
        'diagnostics': diag, 'confirmed_handlers': table,
    }
    res.assumptions = ASSUME
    return res


def c24(prop):
    t = syntree.tree()
    f, E, enc, bad, compared = oprules.agree(t)
    g, n, operands, facts, more = oprules.interpreters(t, enc)
    steps, last = oprules.calls_skip(t, enc)
    res = framework.Result()
    for f, line, key, msg in bad + more + last:
        res.bad(key, 'monoruby/src/%s:%d' % (f.file, line), msg)
    floor(res, 'instruction encodings', len(enc), 105)
    floor(res, 'operands compared', compared, 230)
    floor(res, 'opcodes with handlers', n, 100)
    floor(res, 'operand reads', operands, 400)
    res.coverage = {
        'explanation': 'The two words each instruction is encoded to are evaluated abstractly into bit fields holding its '
                       'operands; the decoder is evaluated on those words and must give back the same operation with the '
                       'same operands. Every opcode emitted must have a handler in the table of both interpreters, the '
                       'assembly of each handler must read every operand at its byte and width, the handlers of one '
                       'instruction must call the same runtime helpers on both, and the program counter skips the cache '
                       'word exactly for instructions that have one.',
        'instruction_encodings': len(enc), 'decoded_operands_compared': compared, 'opcodes_with_handlers': n,
        'operand_reads_in_handlers': operands, 'handlers_analysed': len(facts), 'program_counter_steps': steps,
    }
    res.assumptions = ASSUME + ['the assembler macros emit the instruction they are written as']
    return res


def c25(prop):
    r, bad = lower.run(syntree.tree())
    res = framework.Result()
    for f, line, key, msg in bad:
        res.bad(key, 'monoruby/src/%s:%d' % (f.file, line), msg)
    floor(res, 'instructions of the optimizing compiler', r['asm'] + r['lir'], 280)
    floor(res, 'obligations', r['obligations'], 560)
    res.coverage = {
        'explanation': 'Every variant of the two instruction types is followed through the selections of the shared and the '
                       'per-CPU lowering functions; the arm it ends in must exist, emit code and not be a panic. Where a '
                       'back end only lowers some shapes, every place that makes the instruction must make one of them; '
                       'instructions routed past the encoder are only made for the function that takes them; every kind '
                       'of side exit gets a handler; selections inside an arm know every kind the front end passes.',
        'high_level_instructions': r['asm'], 'low_level_instructions': r['lir'], 'obligations': r['obligations'],
        'lowering_arms_reached': r['arms'], 'constructor_sites_with_partial_shapes': r['sites'],
    }
    res.assumptions = ASSUME
    return res


def c26(prop):
    r, bad = sigrules.c26(syntree.tree())
    res = framework.Result()
    for f, line, key, msg in bad:
        res.bad(key, 'monoruby/src/%s:%d' % (f.file, line), msg)
    floor(res, 'signal handlers', len(r['handlers']), 2)
    floor(res, 'atomic operations in handlers', r['atomics'], 4)
    res.coverage = {
        'explanation': 'Every function whose address reaches the kernel as a signal disposition, and everything it calls, '
                       'may only operate on static atomics, call async-signal-safe system calls and compute; macros, '
                       'indexing, division, unchecked shifts, indirect calls and every other method or function are '
                       'violations, reported with the call path.',
        'handlers': r['handlers'], 'places_that_install_a_disposition': r['sites'],
        'functions_in_signal_context': r['functions'], 'calls_judged': r['calls'], 'atomic_operations': r['atomics'],
    }
    res.assumptions = ASSUME
    return res


def c27(prop):
    r, bad = sigrules.c27(syntree.tree())
    res = framework.Result()
    for f, line, key, msg in bad:
        res.bad(key, 'monoruby/src/%s:%d' % (f.file, line), msg)
    floor(res, 'operations on the poll word and the pending set', r['ops'], 10)
    floor(res, 'callers of clearing functions', r['callers'], 6)
    floor(res, 'polls in generated code', r['polls'], 3)
    res.coverage = {
        'explanation': 'The lanes are disjoint; every operation on the poll word is an atomic set or clear of exactly one '
                       'lane; the functions that clear a lane are called only where that request is answered; the lane '
                       'of signals is cleared before the pending set is drained and raised after a signal is recorded; '
                       'the collector acknowledges after the sweep; generated code tests the whole word. Since all '
                       'writers use single-lane read-modify-write operations, every interleaving keeps the lanes of the '
                       'others.',
        'lanes': r['lanes'], 'word_and_pending_set_operations': r['ops'], 'callers_judged': r['callers'],
        'role_and_disjointness_facts': r['lane'], 'ordering_facts': r['order'], 'polls_in_generated_code': r['polls'],
    }
    res.assumptions = ASSUME + ['signals coalesced into one drain beyond the first are dropped by documented design and not '
                                'judged']
    return res


def report(res, bad):
    """Violations in keys that survive unrelated edits: repeats in one function are numbered."""
    seen = {}
    for key, file, line, msg in bad:
        seen[key] = seen.get(key, 0) + 1
        res.bad(key + ('#%d' % seen[key] if seen[key] > 1 else ''), 'monoruby/src/%s:%d' % (file, line), msg)


def c30(prop):
    t = syntree.tree()
    n, bad = hashiter.c30(t, framework.REPO)
    res = framework.Result()
    report(res, bad)
    floor(res, 'walks over live entries', n['walks'], 50)
    floor(res, 'guards taken', n['guards'], 12)
    floor(res, 'references taken in Ruby code', n['ruby'], 6)
    floor(res, 'operations that change the set of keys', n['mutators'], 5)
    res.coverage = {
        'explanation': 'The iteration guard is a scope-bound object: every taker binds it to a name in the block that '
                       'holds the walk and neither drops nor forgets it, its destructor gives back exactly what its '
                       'constructor took, and Ruby-level takers release in an ensure clause covering the walk. Every '
                       'operation that changes the set of keys asks for an active iteration before it changes anything. '
                       'A walk over live entries that can run Ruby code between two entries must hold the guard.',
        'walks': n['walks'], 'walks_that_run_ruby': n['live_with_calls'], 'of_these_guarded': n['guarded'],
        'guards_taken': n['guards'], 'ruby_level_references': n['ruby'], 'operations_changing_keys': n['mutators'],
    }
    res.assumptions = ASSUME
    return res


def c32(prop):
    n, bad = schedrules.c32(syntree.tree())
    res = framework.Result()
    report(res, bad)
    floor(res, 'writes of the state', n['writes'], 14)
    floor(res, 'wake-ups', n['wakes'], 7)
    floor(res, 'parks', n['parks'], 5)
    res.coverage = {
        'explanation': 'Every write of the state of a thread is found and judged by the conditions that dominate it: a '
                       'write of a live state needs the thread to be known alive, a write of runnable to a thread that '
                       'is not running needs the thread to be known parked and queues it in the same block (unless it is '
                       'the main thread), death happens in the functions that also clean up, and a park that can end in '
                       'more than one way leaves no entry in a waiting list behind.',
        'state_writes': n['writes'], 'wake_ups': n['wakes'], 'parks': n['parks'], 'deaths': n['deaths'],
        'constructors': n['constructors'], 'queue_insertions': n['queued'], 'waiting_lists_cleaned': n['lists'],
    }
    res.assumptions = ASSUME + ['scheduler functions run on one operating-system thread at a time (they borrow the '
                                'scheduler cell)']
    return res


def c33(prop):
    n, bad = numrules.c33(syntree.tree())
    res = framework.Result()
    report(res, bad)
    floor(res, 'functions computing with Ruby integers', n['functions'], 300)
    floor(res, 'operations on them', n['operations'], 650)
    floor(res, 'emitters of machine code', n['emitters'], 34)
    floor(res, 'emitted instructions that can overflow', n['emitted'], 32)
    res.coverage = {
        'explanation': 'Interval analysis of the code that computes with Ruby integers in machine words: a small integer '
                       'is known to have 63 bits, a converted argument 64, and conditions that dominate an operation '
                       'narrow both. An unchecked operation, a cast to a narrower type or an assumed small result whose '
                       'interval leaves the type is a violation. In the emitters of small-integer machine code every '
                       'instruction that can carry out of the word is followed by the branch on overflow, multiplication '
                       'by the comparison of the high half, and shifts are bounded by the leading zeros or shifted back.',
        'functions': n['functions'], 'operations_on_ruby_integers': n['operations'], 'assumed_small_results': n['small_results'],
        'emitters': n['emitters'], 'emitted_instructions_that_can_overflow': n['emitted'],
    }
    res.assumptions = ASSUME + ['operands whose interval is not known (results of other functions) are not judged']
    return res


def c29(prop):
    n, bad = wbrules.c29(syntree.tree())
    res = framework.Result()
    report(res, [(key, getattr(f, 'file', f), line, msg) for f, line, key, msg in bad])
    floor(res, 'stores into payloads', n['stores'], 20)
    floor(res, 'replacements of the content of strings', n['string_contents'], 18)
    floor(res, 'obligations of the barrier and the collector', n['definitions'], 16)
    floor(res, 'obligations of emitted code', n['emitted'], 18)
    res.coverage = {
        'explanation': 'Every store of a reference through an accessor that hands out the payload of a promotable object '
                       'must be followed, in a block that encloses it, by a write barrier on the same object and (for the '
                       'precise form) for the stored value; the accessors may not be used outside the object module; '
                       'replacing the content of a string by one that can be a view into another is such a store. The '
                       'kinds that can be old are a reviewed table, each with its test for young children; the collector '
                       'keeps or arms by that test; the emitters of inline stores on both CPUs and the shared lowering '
                       'emit the barrier, unconditionally or unless the value is known to be immediate.',
        'stores_into_payloads': n['stores'], 'string_content_replacements': n['string_contents'],
        'barrier_and_collector_obligations': n['definitions'], 'wrapper_obligations': n['handles'],
        'emitted_code_obligations': n['emitted'], 'confirmed_exemptions': len(wbrules.EXEMPT) + len(wbrules.OWNED),
    }
    res.assumptions = ASSUME + ['emitted stores other than the listed emitters are not recognised as stores']
    return res


def c31(prop):
    n, bad = boprules.c31(syntree.tree())
    res = framework.Result()
    report(res, bad)
    for k, lo in (('pairs', 62), ('helpers', 22), ('interpreter', 30), ('redefinition', 18), ('compiler', 10)):
        floor(res, 'obligations of the ' + k, n[k], lo)
    res.coverage = {
        'explanation': 'The table of watched (class, operator) pairs contains every pair confirmed to have a fast path; every '
                       'helper that answers without a lookup first tests its own operator, and generated code reaches only '
                       'such helpers; every inline path of the interpreter on both CPUs is behind the guard for its own bit; '
                       'every writer of a method table compares with the watched pairs and reacts (record, guard bit, version, '
                       'eviction of dependent code); the compiler inlines an operator only under the licence and records the '
                       'dependence.',
        'watched_pairs': n['pairs'], 'helper_obligations': n['helpers'], 'interpreter_obligations': n['interpreter'],
        'redefinition_obligations': n['redefinition'], 'compiler_obligations': n['compiler'],
    }
    res.assumptions = ASSUME + ['fast paths of pairs that are not in the reviewed table are recognised only where they use '
                                'the listed helpers or guards']
    return res


def c23(prop):
    n, bad = frozrules.c23(syntree.tree())
    res = framework.Result()
    report(res, bad)
    for k, lo in (('builtins', 1300), ('mutating', 80), ('sites', 135), ('definitions', 14), ('generators', 15), ('uses', 22),
                  ('emitters', 7), ('proofs', 13), ('library', 1)):
        floor(res, k, n[k], lo)
    res.coverage = {
        'explanation': 'Forward must-analysis of every built-in method with the receiver followed through handles and calls: the '
                       'frozen test has passed on every path before the first change. The accessors that test really test, with '
                       'one bit; every generator of compiled code emits the guard before an instruction that changes the '
                       'receiver, or leaves it out only under a proof that is dropped at every block, call and safepoint; the '
                       'guards on both CPUs leave when the bit is set.',
        'builtin_methods': n['builtins'], 'builtins_changing_the_receiver': n['mutating'], 'changes_of_a_receiver': n['sites'],
        'definitions': n['definitions'], 'generators': n['generators'], 'emissions_and_helpers': n['uses'],
        'guard_emitters': n['emitters'], 'proof_obligations': n['proofs'], 'library_uses_of_internal_methods': n['library'],
    }
    res.assumptions = ASSUME + ['changes through handles the analysis does not follow (fields of structures, closures stored '
                                'elsewhere) and receivers other than self are not judged']
    return res


def c34(prop):
    bad, n = verrules.c34(syntree.tree())
    res = framework.Result()
    report(res, bad)
    for k, lo in (('functions', 14), ('writes', 17), ('fresh', 5), ('calls', 8), ('counters', 7), ('readers', 21), ('emitted', 9)):
        floor(res, k, n[k], lo)
    res.coverage = {
        'explanation': 'Must-go-with rule: every change of a method table, an ancestor chain or a constant table, in the function '
                       'that makes it or in each of its callers, has a move of the version on every path, with no Ruby code between '
                       'move and change; records of classes made in the same function are exempt. Kept answers are used only after '
                       'comparing the version they were found at with the current one, by functions and by emitted code on both '
                       'CPUs.',
        'functions_changing_lookup': n['functions'], 'changes': n['writes'], 'changes_of_new_classes': n['fresh'],
        'calls_followed': n['calls'], 'changes_no_lookup_sees': n['neutral'], 'version_counters': n['counters'],
        'uses_of_kept_answers': n['readers'], 'emitted_comparisons': n['emitted'],
    }
    res.assumptions = ASSUME + ['refinement activation and the revalidation of compiled code after a version move are not judged',
                                'a version that wraps around after 2^32 changes is not judged']
    return res


CHECKS = {'C34': ('other', c34), 'C23': ('other', c23), 'C31': ('other', c31), 'C29': ('other', c29), 'C20': ('other', c20), 'C21': ('other', c21), 'C22': ('other', c22), 'C24': ('other', c24),
          'C25': ('other', c25), 'C26': ('other', c26), 'C27': ('other', c27), 'C28': ('other', c28),
          'C30': ('other', c30), 'C32': ('other', c32), 'C33': ('other', c33)}
TECH = {
    'C34': ('must-go-with rule (version move with every change of lookup state) propagated to callers, and comparison rule at every '
            'use of a kept answer',
            'All changes of method tables, ancestor chains and constant tables; all memo uses and all emitted comparisons on both '
            'CPUs. Refinements and revalidation of compiled code are not judged.'),
    'C23': ('forward must-analysis (frozen test before change) over built-ins, generators of compiled code and emitters',
            'All built-in methods and all listed generators and emitters on both CPUs. Objects changed other than as the '
            'receiver are not judged.'),
    'C31': ('guard-dominance and who-may-call rules from redefinition to every fast path of an operator',
            'All watched pairs, helpers, handlers on both CPUs and inlining sites of the compiler.'),
    'C29': ('must-follow rule for stores of references plus who-may-call and sibling agreement of emitters',
            'All stores in the object module, all content replacements of strings, all listed emitters on both CPUs.'),
    'C20': ('reference-holding fixpoint over type definitions plus flow of each field into a marking call',
            'All types with a marking function and all type tags. Values held only in machine registers or stack, in '
            'generated code and in thread-local tables of the compiler are not judged.'),
    'C21': ('agreement of every dispatch on the type tag with the payload the constructors give it',
            'All tags and all dispatches inside the object type. That the sweeper calls free once per dead object is '
            'assumed.'),
    'C22': ('interprocedural constant-index analysis of frame reads against the resolved registration',
            'All registrations found in the source. Reads with computed indices and functions generated by macros are '
            'counted but not judged.'),
    'C24': ('abstract evaluation of encoder and decoder into bit fields plus operand reads of the handlers\' assembly',
            'All instructions, on both CPUs. What a handler computes from its operands is not judged.'),
    'C25': ('exhaustiveness of lowering: every variant followed through nested selections on both CPUs',
            'All variants and constructor sites. What the emitted code computes is not judged.'),
    'C26': ('effect analysis over the call graph of the installed signal handlers',
            'All functions reachable from a disposition handed to the kernel.'),
    'C27': ('who-may-write and ordering rules over all operations on the poll word',
            'All writers, callers and polls. Atomicity turns the per-operation rules into a statement about every '
            'interleaving; the scheduling decision after a preemption tick is not judged.'),
    'C30': ('scope-bound guard rule, check-before-change ordering and a may-run-Ruby reachability rule at every live walk',
            'All walks over live entries found in the source. Walks over a copy of the entries need no guard and are not '
            'judged.'),
    'C32': ('typestate rule over every write of the thread state and its dominating conditions',
            'All writes of the state. Which parked thread is chosen, and when, is not judged.'),
    'C33': ('interval analysis of arithmetic on Ruby integers plus overflow-branch rule over emitted machine code',
            'Arithmetic in the operator implementations, the numeric built-ins and the constant folding, and all emitters '
            'of small-integer operators on both CPUs. Big-integer arithmetic itself is assumed exact.'),
    'C28': ('reachability fixpoint over the call graph plus error-discipline rule at every call site',
            'All call sites whose callee is found by name, owner and arity. Errors that are looked at and then dropped '
            'by hand are not judged.'),
}
