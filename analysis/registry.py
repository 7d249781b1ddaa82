"""Which function decides which property, and how it is described in the manifest."""
import checks_attr
import checks_group
import checks_map
import checks_raw
import checks_syn
import checks_view

CHECKS, TECH = {}, {}
for m in (checks_attr, checks_group, checks_map, checks_raw, checks_syn, checks_view):
    CHECKS.update(m.CHECKS)
    TECH.update(m.TECH)

LATER = 'no check is registered for this property yet'
NA = {
    'C40': 'equivalence of machine code with the interpreter for every program is a semantic relation no '
           'structural rule decides; the generated code does not exist in the source',
    'C41': 'needs the reference meaning of Ruby source as an oracle, which is outside the source',
    'C42': 'needs the reference implementation\'s encoding tables as an oracle',
    'C43': 'fairness and lost wake-ups are liveness over schedules; a static rule would only restate the code',
    'C44': 'a functional inverse over all values and templates; no structural argument is in reach',
    'C45': 'digit-exactness of float formatting is numerical, not structural',
    'C46': 'the order of pending ensure clauses is encoded in generated bytecode tables, not in source structure',
    'C47': 'the collector scans the machine stack conservatively; liveness of registers is decided by the Rust '
           'compiler\'s output, not by the source',
    'C49': 'register allocation is computed by the JIT at run time from the program being compiled',
}
for _p in ['C%02d' % i for i in range(1, 50)]:
    NA.setdefault(_p, LATER)
