"""C31: operators answered without a method lookup are exactly those whose redefinition is seen, on every tier."""
import re

import framework
from guards import walk
from syntree import choices, find, path
from wbrules import strip, tail, text

# pairs confirmed to have a fast path on some tier
ARITH = ['+', '-', '*', '/', '%', '**']
REQUIRED = {
    'INTEGER_CLASS': ARITH + ['<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=', '===', '-@', '+@', '~', '!'],
    'FLOAT_CLASS': ARITH + ['<', '<=', '>', '>=', '==', '!=', '===', '-@', '+@', '!'],
    'COMPLEX_CLASS': ['+', '-', '*', '%', '-@', '!'],
    'STRING_CLASS': ['==', '!=', '!'], 'SYMBOL_CLASS': ['==', '===', '!'], 'NIL_CLASS': ['==', '===', '!'],
    'TRUE_CLASS': ['==', '===', '!'], 'FALSE_CLASS': ['==', '===', '!'],
    'ARRAY_CLASS': ['[]', '[]='], 'HASH_CLASS': ['[]'],
}
# helpers that answer without a lookup, and the operator each must look at first
HELPERS = {'neg_value': '_UMINUS', 'pos_value': '_UPLUS', 'not_value': '_NOT', 'bitnot_value': '_BNOT',
           'eq_values_vis': '_EQ', 'cmp_teq_values_impl': '_TEQ', 'get_index': '_INDEX', 'set_index': '_INDEX_ASSIGN'}
# operator each generated helper stands for
GENERATED = {'add': '_ADD', 'sub': '_SUB', 'mul': '_MUL', 'ge': '_GE', 'gt': '_GT', 'le': '_LE', 'lt': '_LT',
             'bitor': '_BOR', 'bitand': '_BAND', 'bitxor': '_BXOR', 'div_values': '_DIV', 'rem_values': '_REM',
             'pow_values': '_POW', 'shr_values': '_SHR', 'shl_values': '_SHL'}
VMBOP = {'Add': '_ADD', 'Sub': '_SUB', 'Eq': '_EQ', 'Ne': '_NEQ', 'Lt': '_LT', 'Le': '_LE', 'Gt': '_GT', 'Ge': '_GE',
         'TEq': '_TEQ', 'Pos': '_UPLUS', 'Neg': '_UMINUS'}
FAST = ('int_add', 'int_sub')


def read(rel):
    with open('%s/monoruby/src/%s' % (framework.REPO, rel)) as f:
        return f.read()


def clean(s):
    return re.sub(r'/\*.*?\*/', ' ', re.sub(r'//[^\n]*', '', s), flags=re.S)


def block(s, at):
    """Text of the brace block that opens at or after `at`."""
    i = s.find('{', at)
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{':
            d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0:
                return s[i:j + 1]
    return s[i:]


def line(s, at):
    return s.count('\n', 0, at) + 1


def table():
    n, bad = 0, []
    s = read('globals/store/basic_op.rs')
    m = re.search(r'BASIC_OP_DEFS\s*:[^=]*=\s*&\[(.*?)\];', s, re.S)
    if not m:
        raise framework.AnchorMissing('table of basic operators')
    have = set(re.findall(r'\(\s*(\w+)\s*,\s*"([^"]+)"\s*,?\s*\)', clean(m.group(1))))
    for cls, ops in REQUIRED.items():
        for op in ops:
            n += 1
            if (cls, op) not in have:
                bad.append(('table|%s|%s' % (cls, op), 'globals/store/basic_op.rs', line(s, m.start()),
                            'the redefinition of %s of %s is not watched, but it is answered without a lookup' % (op, cls)))
    return n, bad


def lets(f):
    """Locals bound once, to look through `let c = test(); if c`."""
    env, many = {}, set()
    for l in find(f.body, 'local'):
        p = l[2]
        if isinstance(p, list) and p[0] == 'pident' and l[3] and not l[4]:
            (many.add if p[2] in env else (lambda x: None))(p[2])
            env[p[2]] = l[3]
    for a in find(f.body, 'assign'):
        many.add(text(a[2]))
    return {k: v for k, v in env.items() if k not in many}


def look(e, env):
    e = strip(e)
    while isinstance(e, list) and e and e[0] == 'path' and e[2] in env:
        e = strip(env[e[2]])
    return e


def conds(g, env={}):
    """(method name, polarity, arguments) of the tests known at a node."""
    out = []

    def parts(c, pol):
        c = look(c, env)
        if not isinstance(c, list) or not c:
            return
        if c[0] == 'bin' and (c[2] == '&&' and pol or c[2] == '||' and not pol):
            parts(c[3], pol)
            parts(c[4], pol)
        elif c[0] == 'un' and c[2] == '!':
            parts(c[3], not pol)
        elif c[0] == 'mcall':
            out.append((c[3], pol, c[4]))
        elif c[0] == 'bin' and c[2] in ('&&', '||'):
            # a test guarded by the cheap global gate counts as the test itself
            sub = [strip(x) for x in (c[3], c[4])]
            for x in sub:
                if isinstance(x, list) and x[0] == 'mcall' and x[3] == 'basic_op_redefined_for':
                    out.append((x[3], pol, x[4]))
    for x in g:
        if x[0] == 'if':
            parts(x[1], x[2])
    return out


def helpers(t):
    n, bad = 0, []
    for name, op in HELPERS.items():
        fs = [f for f in t.by_name.get(name, []) if f.body and (f.file == 'executor/op.rs' or f.file == 'codegen/runtime.rs')
              and (len(f.params) >= 3)]
        if not fs:
            raise framework.AnchorMissing('operator helper %s' % name)
        for f in fs:
            n += 1
            tests = [m for m in find(f.body, 'mcall') if m[3] == 'basic_op_redefined_for' and len(m[4]) == 2 and
                     tail(text(m[4][1])) == op]
            if not tests:
                bad.append(('helper|%s' % name, f.file, f.line,
                            'the operator is answered without looking whether it was redefined'))
                continue
            # everything that answers is reached only when it was not redefined
            hits = []

            def visit(x, g, l):
                if x[0] == 'match' and any(y[3] == 'unpack' for y in find(x[2], 'mcall')) or \
                        x[0] in ('mcall', 'call') and (tail(path(x[2]) or '') if x[0] == 'call' else x[3]) in (
                            name + '_raw', 'set_index', 'get_index', 'index', 'hash_index', 'as_array', 'as_hash'):
                    hits.append((x, g))
            walk(f.body, [], visit)
            for x, g in hits:
                if not any(c[0] == 'basic_op_redefined_for' and not c[1] for c in conds(g, lets(f))):
                    bad.append(('helper|%s|order' % name, f.file, x[1],
                                'this answer is reached also when the operator was redefined'))
                    break
            if not hits:
                bad.append(('helper|%s|shape' % name, f.file, f.line, 'no answer guarded by the test was found'))
    # the generated entries
    for rel in ('executor/op.rs', 'executor/op/binary_ops.rs'):
        s = clean(read(rel))
        for m in re.finditer(r'macro_rules!\s*(\w+)', s):
            body = block(s, m.end())
            for e in re.finditer(r'fn\s+(\[<[^>]*>\]|\$\w+)\s*\(', body):
                nm = e.group(1)
                if 'raw' in nm:
                    continue
                fb = block(body, e.end())
                if m.group(1) == 'eq_values':
                    continue     # forwards to the two functions judged above
                if m.group(1) == 'bop_entry' or 'values' in nm:
                    n += 1
                    g = re.search(r'if\s+(?:globals\.store\.basic_op_redefined\(\)\s*&&\s*)?globals\s*\.store\s*'
                                  r'\.basic_op_redefined_for\(\s*lhs\.class\(\)\s*,\s*\$\w+\s*\)\s*\{\s*return\s+vm\.invoke_method', fb)
                    first = min([x for x in (fb.find('_raw'), fb.find('$raw'), fb.find('.unpack()')) if x >= 0] or [-1])
                    if not g or 0 <= first < g.start():
                        bad.append(('generated|%s|%s' % (m.group(1), nm), rel, line(s, m.start()),
                                    'the generated helper answers without looking whether the operator was redefined'))
        for m in re.finditer(r'^(binop_values|cmp_values|int_binop_values)!\(([^;]*)\);', s, re.M):
            for op, ident in re.findall(r'\(\s*(\w+)\s*,\s*IdentId::(\w+)\s*\)', m.group(2)):
                n += 1
                if GENERATED.get(op) != ident:
                    bad.append(('operator|%s' % op, rel, line(s, m.start()), 'the helper looks at the redefinition of another operator'))
        for m in re.finditer(r'^bop_entry!\(\s*(\w+)\s*,\s*(\w+)\s*,\s*IdentId::(\w+)\s*\)', s, re.M):
            n += 1
            if GENERATED.get(m.group(1)) != m.group(3) or m.group(2) != m.group(1) + '_raw':
                bad.append(('operator|%s' % m.group(1), rel, line(s, m.start()), 'the helper looks at the redefinition of another operator'))
    # compiled and interpreted code may only reach the checking entries
    for fs in t.by_name.values():
        for f in fs:
            if f.body and f.file.startswith('codegen') and 'tests' not in (f.mod or ()):
                for p in find(f.body, 'path'):
                    if re.search(r'_values?_raw$', tail(p[2])):
                        bad.append(('raw|%s|%s' % (f.full, tail(p[2])), f.file, p[1],
                                    'generated code reaches the operator without the test for redefinition'))
    return n, bad


def vm(t):
    n, bad = 0, []
    fi = t.fn('from_ident', 'codegen.rs', 'VmBop')
    got = {}
    for m in choices(fi.body):
        for a in m[3]:
            e = strip(a[4])
            for p in find(a[2], 'ppath', 'path'):
                if isinstance(e, list) and e[0] == 'path':
                    got[tail(e[2])] = tail(p[2])
    variants = [v[0] if isinstance(v, (list, tuple)) else v for v in t.enum('VmBop', 'codegen.rs')[4]]
    for v in VMBOP:
        n += 1
        if got.get(v) != VMBOP[v]:
            bad.append(('vmbop|%s' % v, 'codegen.rs', fi.line, 'redefining the operator does not set the bit its handler tests'))
    src = read('codegen.rs')
    m = re.search(r'enum VmBop\s*\{(.*?)\}', src, re.S)
    nums = re.findall(r'(\w+)\s*=\s*(\d+)', clean(m.group(1))) if m else []
    if len(set(x for _, x in nums)) != len(nums) or any(int(x) > 63 for _, x in nums):
        bad.append(('vmbop|bits', 'codegen.rs', line(src, m.start()), 'two operators share a bit'))
    # handlers: the operator they test against the one they fall back to
    x = clean(read('codegen/arch/x86_64/vmgen.rs'))
    a = clean(read('codegen/arch/aarch64/vmgen.rs'))
    g = t.fn('vm_bop_guard', 'codegen/arch/x86_64/vmgen.rs')
    gb = ' '.join(str(m[3]).replace(' ', '') for m in find(g.body, 'macro'))
    n += 2
    if not re.search(r'testq\[rip\+flag\],\(bop\.bit\(\)\);j(nz|ne)generic', gb):
        bad.append(('guard|x86_64', 'codegen/arch/x86_64/vmgen.rs', g.line, 'the emitted guard does not leave the inline path'))
    g = t.fn('a64_bop_guard', 'codegen/arch/aarch64/vmgen.rs')
    if not any(m[3] == 'tbnz_label' and len(m[4]) == 3 and path(m[4][0]) == 'X9' and m[4][1][0] == 'cast' and
               path(m[4][1][2]) == 'bop' and path(m[4][2]) == 'generic' for m in find(g.body, 'mcall')):
        bad.append(('guard|aarch64', 'codegen/arch/aarch64/vmgen.rs', g.line, 'the emitted guard does not leave the inline path'))
    m = re.search(r'^\s*vm_cmp_opt!\(([^;]*)\);\s*$', x, re.M)
    pairs = re.findall(r'(\w+)\s*:\s*(\w+)', m.group(1)) if m else []
    want = {'eq': 'Eq', 'ne': 'Ne', 'gt': 'Gt', 'ge': 'Ge', 'lt': 'Lt', 'le': 'Le', 'teq': 'TEq'}
    for op, b in pairs:
        n += 1
        if want.get(op) != b:
            bad.append(('handler|x86_64|%s' % op, 'codegen/arch/x86_64/vmgen.rs', line(x, m.start()), 'the handler tests the bit of another operator'))
    mac = re.search(r'macro_rules!\s*vm_cmp_opt', x)
    mb = block(x, mac.end()) if mac else ''
    n += 1
    if not before(mb, 'vm_bop_guard', 'icmp_'):
        bad.append(('handler|x86_64|macro', 'codegen/arch/x86_64/vmgen.rs', line(x, mac.start()) if mac else 1, 'the inline path is not guarded'))
    for op, b in re.findall(r'a64_op_cmp\(Cond::\w+,\s*cmp_(\w+?)(?:_case)?_values as \*const \(\) as u64,\s*VmBop::(\w+)\)', a):
        n += 1
        if want.get(op) != b:
            bad.append(('handler|aarch64|%s' % op, 'codegen/arch/aarch64/vmgen.rs', 1, 'the handler tests the bit of another operator'))
    for op, b in re.findall(r'vm_binops_opt\(Self::int_(\w+),\s*\w+,\s*VmBop::(\w+)\)', x):
        n += 1
        if op.capitalize() != b:
            bad.append(('handler|x86_64|%s' % op, 'codegen/arch/x86_64/vmgen.rs', 1, 'the handler tests the bit of another operator'))
    # every function with an inline computation of small integers calls the guard before it
    for fl, guard, marks in (('codegen/arch/x86_64/vmgen.rs', 'vm_bop_guard', ('icmp_', 'opt_func', 'negq', 'opt(')),
                             ('codegen/arch/aarch64/vmgen.rs', 'a64_bop_guard', ('cmp x13', 'subs x9', 'adds x9'))):
        for f in [f for fs in t.by_name.values() for f in fs if f.file == fl and f.body]:
            names = [m[3] for m in find(f.body, 'mcall')]
            fast = [m for m in names if re.match(r'guard_(rdi_)?(rsi_)?(rdi_)?fixnum|guard_rdi_rsi_fixnum', m)] or \
                ['asm'] if any(re.search(r'tbz x1[34] , #', str(m[3])) for m in find(f.body, 'macro')) else \
                [m for m in names if m in ('guard_rdi_rsi_fixnum', 'guard_rdi_fixnum')]
            if fast and f.name not in ('guard_rdi_rsi_fixnum',):
                n += 1
                if guard not in names:
                    bad.append(('handler|%s' % f.full, f.file, f.line,
                                'the handler answers small integers inline without the guard for redefinition'))
    return n, bad


def before(s, one, other):
    i, j = s.find(one), s.find(other)
    return 0 <= i and (j < 0 or i < j)


def tables(t):
    n, bad = 0, []

    def must(f, callee, allowed, key, msg):
        hits, env = [], lets(f)
        walk(f.body, [], lambda x, g, l: hits.append((x, g)) if x[0] == 'mcall' and x[3] == callee else None)
        for x, g in hits:
            ok = True
            for c in g:
                if c[0] != 'if':
                    ok = False
                    continue
                e = look(c[1], env)
                ok = ok and isinstance(e, list) and (e[0] == 'mcall' and (e[3], c[2]) in allowed or
                                                     e[0] in ('let', 'bin') and ('let', c[2]) in allowed)
            if ok:
                return
        bad.append((key, f.file, f.line, msg))

    for nm in ('insert_method', 'remove_method'):
        f = [f for f in t.by_name[nm] if f.file == 'globals/store/class.rs' and f.body and
             any(m[3] in ('insert', 'remove') for m in find(f.body, 'mcall'))][0]
        n += 2
        must(f, 'set_bop_redefine', {('contains', True)}, 'watch|%s' % nm,
             'the change of a method is not compared with the table of basic operators')
        must(f, 'check_refined_basic_op', set(), 'watch|%s|refined' % nm, 'the change of a refinement is not compared with the table')
    f = t.fn('set_bop_redefine', 'globals/store/class.rs')
    must(f, 'mark_redefined', set(), 'react|mark', 'the redefinition is not recorded')
    must(f, 'invalidate_bop_fast_paths', set(), 'react|invalidate', 'the fast paths stay in force')
    f = t.fn('check_refined_basic_op', 'globals/store/class.rs')
    must(f, 'mark_refined', {('let', True)}, 'react|refined mark', 'the refinement is not recorded')
    must(f, 'invalidate_bop_fast_paths', {('let', True)}, 'react|refined invalidate', 'the fast paths stay in force')
    f = t.fn('invalidate_bop_fast_paths', 'globals/store/class.rs')
    must(f, 'evict_jit_code_for_bop', set(), 'react|evict', 'compiled code that inlined the operator is not evicted')
    must(f, 'set_bop_redefine', set(), 'react|guard', 'the guard word of the interpreter is not set')
    for m in find(f.body, 'mcall'):
        if m[3] == 'evict_jit_code_for_bop' and [text(a) for a in m[4]] != ['class_id', 'name'] and \
                [text(a) for a in m[4]] != [p for p in params(f)][-2:]:
            bad.append(('react|evict args', f.file, m[1], 'code depending on another operator is evicted'))
    f = [f for f in t.by_name['set_bop_redefine'] if f.file == 'codegen.rs'][0]
    n += 9
    sets = {text(a[2]) for a in find(f.body, 'assign')}
    if 'self.bop_eviction_pending' not in sets:
        bad.append(('react|pending', f.file, f.line, 'code on the stack is not evicted'))
    if not any(m[3] in ('bit',) for m in find(f.body, 'mcall')):
        bad.append(('react|bit', f.file, f.line, 'the bit of the operator is not set'))
    if not any(m[3] in ('wrapping_add',) for m in find(f.body, 'mcall')) and not any(b[2] in ('+', '+=') for b in find(f.body, 'bin')):
        bad.append(('react|version', f.file, f.line, 'the version of the basic operators is not advanced'))
    f = t.fn('evict_jit_code_for_bop', 'globals/store.rs')
    n += 1
    must(f, 'evict_jit_code', {('depends_on_bop', True)}, 'react|evict each', 'not every dependent body is evicted')
    # recording in the table
    for nm, sets_ in (('mark_redefined', ('redefined_set', 'globally_redefined_set')), ('mark_refined', ('redefined_set', 'refined_set'))):
        f = t.fn(nm, 'globals/store/basic_op.rs')
        n += 1
        ins = {text(m[2]).split('.')[-1] for m in find(f.body, 'mcall') if m[3] == 'insert'}
        flag = any(text(a[2]) == 'self.redefined' for a in find(f.body, 'assign'))
        for s in sets_:
            if s not in ins:
                bad.append(('record|%s|%s' % (nm, s), f.file, f.line, 'the redefinition is not entered in the set its readers consult'))
        if not flag:
            bad.append(('record|%s|gate' % nm, f.file, f.line, 'the gate the readers test first stays closed'))
    f = t.fn('contains', 'globals/store/basic_op.rs')
    n += 1
    for x in leaves(f.body):
        if x not in ('self.armed', 'self.set.contains'):
            bad.append(('record|contains', f.file, f.line, 'a watched pair is not always reported'))
    for nm, st in (('redefined_pair', 'redefined_set'), ('globally_redefined_pair', 'globally_redefined_set'), ('refined_pair', 'refined_set')):
        f = t.fn(nm, 'globals/store/basic_op.rs')
        n += 1
        if not any(m[3] == 'contains' and text(m[2]).split('.')[-1] == st for m in find(f.body, 'mcall')):
            bad.append(('record|%s' % nm, f.file, f.line, 'another set is consulted'))
    # the method table is written nowhere else (fresh classes are copied whole)
    for f in [f for fs in t.by_name.values() for f in fs if f.body and f.file.startswith('globals/') and 'tests' not in (f.mod or ())]:
        for m in find(f.body, 'mcall'):
            if m[3] in ('insert', 'remove', 'retain', 'clear', 'entry', 'extend', 'drain') and \
                    text(m[2]).endswith('methods') or m[3] in ('insert', 'remove', 'retain', 'clear', 'entry', 'extend') and \
                    isinstance(m[2], list) and m[2][0] == 'field' and m[2][3] == 'methods':
                n += 1
                if f.name not in ('insert_method', 'remove_method'):
                    bad.append(('writer|%s|%s' % (f.full, m[3]), f.file, m[1],
                                'the method table is changed without comparing with the table of basic operators'))
    # putting a module in front of a class replaces its operators as well
    for f in [f for fs in t.by_name.values() for f in fs if f.body and 'tests' not in (f.mod or ())]:
        for m in find(f.body, 'mcall'):
            if m[3] == 'prepend_module' and f.name != 'prepend_module' and not f.file.endswith('store/class.rs'):
                n += 1
                if not any(x[3] in ('set_bop_redefine', 'check_prepended_basic_ops', 'invalidate_bop_fast_paths')
                           for x in find(f.body, 'mcall')):
                    bad.append(('prepend|%s' % f.name, f.file, m[1],
                                'operators of a module put in front of a built-in class are not compared with the table'))
    return n, bad


def leaves(body):
    """Texts of the conjuncts a boolean function returns."""
    out = []

    def go(e):
        e = strip(e)
        if isinstance(e, list) and e[0] == 'bin' and e[2] in ('&&', '&'):
            go(e[3])
            go(e[4])
        elif isinstance(e, list) and e[0] == 'mcall':
            out.append(text(e[2]) + '.' + e[3])
        elif isinstance(e, list) and e[0] in ('field', 'path', 'un', 'bin'):
            out.append(text(e) if e[0] != 'un' else '!' + text(e[3]))
    for x in find(body, 'tail', 'return'):
        go(x[2])
    return out


def params(f):
    out = []
    for p in f.params:
        out += [x[2] for x in find(p, 'pident')] if isinstance(p, list) else []
    return out


def jit(t):
    n, bad = 0, []
    LIC, REC = 'basic_op_assumable', 'record_bop_dep'
    fs = [f for v in t.by_name.values() for f in v if f.body and f.file.startswith('codegen/jitgen/compile/') and 'tests' not in (f.mod or ())]
    # the licence itself
    f = [f for f in fs if f.name == LIC]
    if not f:
        raise framework.AnchorMissing('licence for inlining basic operators')
    f = f[0]
    env = lets(f)
    for callee, pol in (('is_basic_op_pair', False), ('basic_op_globally_redefined_for', True), ('basic_op_refined_in_scope', True)):
        n += 1
        ok = False
        for i in find(f.body, 'if'):
            c, p = look(i[2], env), True
            while isinstance(c, list) and c[0] == 'un' and c[2] == '!':
                c, p = look(c[3], env), not p
            if isinstance(c, list) and c[0] == 'mcall' and c[3] == callee and p == pol and \
                    any(str(r[2]) and isinstance(r[2], list) and r[2][0] == 'lit' and str(r[2][2]).lower() == 'false' for r in find(i[3], 'return')):
                ok = True
        if not ok and not any(callee == m[3] for b in find(f.body, 'bin') for m in find(b, 'mcall')):
            bad.append(('licence|%s' % callee, f.file, f.line, 'the operator is inlined although it was redefined'))
    f = [f for f in fs if f.name == REC][0]
    n += 1
    if not any(m[3] in ('push', 'insert') and text(m[2]) == 'self.bop_deps' for m in find(f.body, 'mcall')):
        bad.append(('licence|record', f.file, f.line, 'the dependence is not recorded'))
    # users
    for f in fs:
        if f.name in (LIC, REC):
            continue
        calls = [m for m in find(f.body, 'mcall') if m[3] in ('inline_asm', 'inline_asm_unary', 'inline_asm_binary')]
        lic = any(m[3] in (LIC, 'index_inline_class') for m in find(f.body, 'mcall'))
        rec = [m for m in find(f.body, 'mcall') if m[3] == REC]
        if lic and calls or rec:
            n += 1
            if not lic:
                bad.append(('inline|%s|licence' % f.name, f.file, f.line, 'an operator is inlined without asking whether it was redefined'))
            if not rec:
                bad.append(('inline|%s|record' % f.name, f.file, f.line, 'an operator is inlined without recording the dependence'))
        asked = {tuple(text(look(a, lets(f))) for a in m[4]) for m in find(f.body, 'mcall') if m[3] == LIC}
        for m in rec:
            if asked and tuple(text(look(a, lets(f))) for a in m[4]) not in asked and f.name != 'opt_eq_assumable':
                bad.append(('inline|%s|pair' % f.name, f.file, m[1], 'another dependence is recorded than the one assumed'))
        for m in calls:
            hits = []
            walk(f.body, [], lambda x, g, l: hits.append(g) if x is m else None)
            if not f.name.startswith('inline_asm') and not lic and f.file != 'codegen/jitgen/compile/method_call.rs':
                bad.append(('inline|%s|unlicensed' % f.name, f.file, m[1], 'a generator is run without a licence outside the guarded call path'))
            elif lic and not any(x[3] == 'index_inline_class' for x in find(f.body, 'mcall')) and \
                    not any(c[0] == LIC and c[1] for g in hits for c in conds(g, lets(f))):
                bad.append(('inline|%s|order' % f.name, f.file, m[1], 'the generator runs also when the licence is refused'))
    # equality of immediates
    f = [f for f in fs if f.name == 'opt_eq_assumable']
    users = [(g, m) for g in fs for m in find(g.body, 'mcall') if m[3] == 'opt_eq_cmp']
    for g, m in users:
        n += 1
        if not any(x[3] == 'opt_eq_assumable' for x in find(g.body, 'mcall')):
            bad.append(('inline|opt_eq_cmp', g.file, m[1], 'equality is inlined without a licence'))
    src = clean(read('codegen/jitgen/compile/binary_op.rs'))
    m = re.search(r'OPT_EQ_IMMEDIATE_CLASSES\s*:[^=]*=\s*&\[(.*?)\]', src, re.S)
    n += 1
    if not m or not {'INTEGER_CLASS', 'NIL_CLASS', 'TRUE_CLASS', 'FALSE_CLASS', 'SYMBOL_CLASS'} <= set(re.findall(r'\w+', m.group(1))):
        bad.append(('inline|immediates', 'codegen/jitgen/compile/binary_op.rs', line(src, m.start()) if m else 1,
                    'a class of immediates answered inline is not licensed'))
    # `!=` of an immediate answered inline: watched as well, or a `!=` of the user is looked for
    s = read('globals/store/basic_op.rs')
    w = re.search(r'BASIC_OP_DEFS\s*:[^=]*=\s*&\[(.*?)\];', s, re.S)
    watched = set(re.findall(r'\(\s*(\w+)\s*,\s*"([^"]+)"\s*,?\s*\)', clean(w.group(1)))) if w else set()
    asks = f and any(x[3] == 'custom_neq' for x in find(f[0].body, 'mcall'))
    for cls in sorted(set(re.findall(r'\b[A-Z]+_CLASS\b', m.group(1)))) if m else ():
        n += 1
        if (cls, '!=') not in watched and not asks:
            bad.append(('inline|neq|' + cls, 'codegen/jitgen/compile/binary_op.rs', f[0].line if f else 1,
                        '!= of %s is answered inline although its redefinition is not watched' % cls))
    # the dependences reach the compiled body
    cs = [f for v in t.by_name.values() for f in v if f.body and f.file == 'codegen/compiler.rs']
    n += 1
    if not any(m[3] == 'add_bop_deps' for f in cs for m in find(f.body, 'mcall')):
        bad.append(('inline|deps', 'codegen/compiler.rs', 1, 'recorded dependences do not reach the compiled body'))
    return n, bad


def c31(t):
    r, bad = {}, []
    for k, fn in (('pairs', lambda t: table()), ('helpers', helpers), ('interpreter', vm), ('redefinition', tables), ('compiler', jit)):
        r[k], b = fn(t)
        bad += b
    return r, bad
