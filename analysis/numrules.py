"""C33: arithmetic on Ruby integers in machine words stays inside the word, or is checked.

Part one is an interval analysis of the Rust code that computes with small integers; part two looks at the machine code the
two back ends emit for small-integer operators: whatever can carry out of the word is followed by the branch on overflow.
"""
import re

from framework import AnchorMissing
from guards import walk
from syntree import choices, find, path, tail

FILES = ('executor/', 'value/', 'builtins/numeric/', 'builtins/math.rs', 'builtins/range.rs', 'builtins/arithmetic_sequence.rs',
         'builtins/random.rs', 'builtins/enumerator.rs', 'builtins/struct_class.rs', 'codegen/jitgen/state/binop.rs')
# in the other built-in methods arguments for the operating system, flags and single bytes are cut to size on purpose: only
# additions, subtractions, products and negations of signed words are judged there
ARITH = ('builtins/',)
W = 1 << 63
I64, FIX = (-W, W - 1), (-(1 << 62), (1 << 62) - 1)
I32, U32 = (-(1 << 31), (1 << 31) - 1), (0, (1 << 32) - 1)
U64 = (0, (1 << 64) - 1)
TYPES = {'i64': I64, 'i32': I32, 'u32': U32, 'u64': U64, 'usize': U64, 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535),
         'i8': (-128, 127), 'isize': I64, 'i128': (-(1 << 127), (1 << 127) - 1), 'u128': (0, (1 << 128) - 1)}
SRC = {'coerce_to_int_i64': I64, 'expect_integer': I64, 'try_fixnum': FIX, 'is_fixnum_literal': FIX, 'as_fixnum': FIX, 'coerce_to_i64': I64, 'try_fixnum_or_i64': I64}


# constant folding of two literals that are small integers (confirmed at both call sites)
SMALL = ('fold_shl', 'fold_shr')


class T:
    """An integer of a machine type within an interval."""
    __slots__ = ('ty', 'lo', 'hi', 'ruby')

    def __init__(self, ty, lo, hi, ruby=False):
        self.ty, self.lo, self.hi, self.ruby = ty, lo, hi, ruby

    def __repr__(self):
        return '%s[%d,%d]%s' % (self.ty, self.lo, self.hi, '*' if self.ruby else '')


def full(ty, ruby=False):
    return T(ty, TYPES[ty][0], TYPES[ty][1], ruby)


def resolve(n, scope, out):
    """For every use of a name, the pattern that binds it there."""
    if not isinstance(n, list) or not n:
        return
    k = n[0] if len(n) > 2 and isinstance(n[1], int) else None
    if k == 'path':
        out[id(n)] = scope.get(n[2].replace(' ', ''))
    elif k in ('block', 'unsafe') and len(n) > 2 and isinstance(n[2], list):
        inner = dict(scope)
        for st in n[2]:
            resolve(st, inner, out)
    elif k in ('local', 'let'):
        resolve(n[3], scope, out)
        if k == 'local':
            resolve(n[4], dict(scope), out)
        bound(n[2], scope)
    elif k in ('if', 'while'):
        inner = dict(scope)
        resolve(n[2], inner, out)
        resolve(n[3], inner, out)
        if k == 'if':
            resolve(n[4], dict(scope), out)
    elif k == 'for':
        resolve(n[3], scope, out)
        inner = dict(scope)
        bound(n[2], inner)
        resolve(n[4], inner, out)
    elif k == 'arm':
        inner = dict(scope)
        bound(n[2], inner)
        resolve(n[3], inner, out)
        resolve(n[4], inner, out)
    elif k == 'closure':
        inner = dict(scope)
        for x in n[2:-1]:
            bound(x, inner)
        resolve(n[-1], inner, out)
    else:
        for x in n:
            resolve(x, scope, out)


def steps(f, n):
    """How far the name moves at most, if it is only ever stepped by constants outside loops."""
    lo = hi = 0
    if any(path(a[2]) == n for a in find(f.body, 'assign')):
        return None
    looped = {id(b) for l in find(f.body, 'while', 'for', 'loop', 'closure') for b in find(l, 'bin')}
    for b in find(f.body, 'bin'):
        if b[2].endswith('=') and b[2] not in ('==', '!=', '<=', '>=') and path(b[3]) == n:
            if b[2] not in ('+=', '-=') or b[4][0] != 'lit' or type(b[4][2]) is not int or id(b) in looped:
                return None
            lo, hi = (lo, hi + b[4][2]) if b[2] == '+=' else (lo - b[4][2], hi)
    return lo, hi


def bound(p, scope):
    for x in find(p, 'pident'):
        scope[x[2]] = x


class Eval:
    def __init__(self, f, report, given=None):
        self.f, self.report = f, report
        self.env, scope = {}, {}
        assigned = {path(a[2]) for a in find(f.body, 'assign')} | {path(b[3]) for b in find(f.body, 'bin')
                                                                     if b[2].endswith('=') and b[2] not in ('==', '!=', '<=', '>=')}
        for p in f.params:
            scope[p[0]] = mark = ['param', f.line, p[0]]
            ty = p[1].replace(' ', '').lstrip('&')
            if ty in TYPES and p[0] not in assigned:
                v = full(ty, ty == 'i64')
                if f.name in SMALL:
                    v = T(ty, *FIX, True)
                elif ty == 'usize':
                    v = T(ty, 0, W - 1)
                elif given and given.get(p[0]) is not None:
                    v = given[p[0]]
                self.env[id(mark)] = (f.line, v)
        self.marks, self.res = scope, {}
        resolve(f.body, dict(scope), self.res)
        for p in find(f.body, 'pts'):
            n = tail(p[2].replace(' ', ''))
            if n in ('Fixnum', 'Integer') and len(p[3]) == 1:
                for x in find(p[3][0], 'pident'):
                    self.env[id(x)] = (x[1], T('i64', *(FIX if n == 'Fixnum' else I64), True))
        self.claims = [('if', m[4][0], True) for m in find(f.body, 'macro') if m[2] in ('assert', 'debug_assert') and m[4]
                       and m[4][0][0] == 'bin' and 'lit' in (m[4][0][3][0], m[4][0][4][0])]
        at = {}

        def note(n, guards, loops):
            at.setdefault(id(n), list(guards))
        walk(f.body, [], note)
        for l in find(f.body, 'local', 'let'):
            p = l[2]
            while p[0] == 'ptype':
                p = p[2]
            if p[0] == 'pts' and tail(p[2]) in ('Some', 'Ok') and len(p[3]) == 1:
                p = p[3][0]
            if p[0] == 'pident':
                v = self.ev(l[3], at.get(id(l[3]), []), quiet=True) if l[3] is not None else None
                if v is not None and p[2] in assigned:
                    k = steps(f, p[2])
                    if v.ty not in TYPES:
                        v = None
                    elif k is None or v.lo + k[0] < TYPES[v.ty][0] or v.hi + k[1] > TYPES[v.ty][1]:
                        v = full(v.ty, v.ruby)
                    else:
                        v = T(v.ty, v.lo + k[0], v.hi + k[1], v.ruby)
                self.env[id(p)] = (l[1], v)

    def look(self, e):
        """What the name stands for here, and since which line."""
        b = self.res.get(id(e))
        l, v = self.env.get(id(b), (0, None)) if b is not None else (0, None)
        return v, l

    def refine(self, n, v, guards, since):
        lo, hi = v.lo, v.hi
        for g in list(guards) + self.claims:
            if g[0] != 'if' or g[1][1] < since:
                continue
            for c, pol in conj(g[1], g[2]):
                if c[0] == 'mcall' and c[3] == 'contains' and pol and c[4] and strip(c[4][0]) == n:
                    r = c[2]
                    while r[0] == 'paren':
                        r = r[2]
                    if r[0] == 'range' and r[2] and r[3]:
                        a, b = self.ev(r[2], [], True), self.ev(r[3], [], True)
                        if a and b:
                            lo, hi = max(lo, a.lo), min(hi, b.hi - (0 if r[4] is True else 1))
                    continue
                if c[0] == 'mcall' and c[3] == 'is_zero' and strip(c[2]) == n:
                    if not pol:
                        lo, hi = lo + (lo == 0), hi - (hi == 0)
                    continue
                if c[0] != 'bin' or c[2] not in ('<', '<=', '>', '>=', '==', '!='):
                    continue
                a, b, op = c[3], c[4], c[2]
                if strip(b) == n:
                    a, b, op = b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
                if strip(a) != n:
                    continue
                k = self.ev(b, [], quiet=True)
                if k is None:
                    continue
                if not pol:
                    op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
                if op == '<':
                    hi = min(hi, k.hi - 1)
                elif op == '<=':
                    hi = min(hi, k.hi)
                elif op == '>':
                    lo = max(lo, k.lo + 1)
                elif op == '>=':
                    lo = max(lo, k.lo)
                elif op == '==':
                    lo, hi = max(lo, k.lo), min(hi, k.hi)
                elif op == '!=' and k.lo == k.hi:
                    if lo == k.lo:
                        lo += 1
                    if hi == k.lo:
                        hi -= 1
        return T(v.ty, lo, hi, v.ruby)

    def out(self, n, what, v, quiet):
        """The result of an unchecked operation on machine integers."""
        if v.ty == 'lit':
            return v
        a, b = TYPES[v.ty]
        if v.lo < a or v.hi > b:
            if not quiet and v.ruby:
                self.report(n, what, v)
            return full(v.ty, v.ruby)
        return v

    def ev(self, e, guards, quiet=False):
        if not isinstance(e, list) or not e:
            return None
        k = e[0]
        if k in ('paren', 'semi', 'tail', 'try'):
            return self.ev(e[2], guards, quiet)
        if k == 'ref':
            return self.ev(e[3], guards, quiet)
        if k == 'un':
            v = self.ev(e[3], guards, quiet)
            if e[2] == '*':
                return v
            if v is None:
                return None
            if e[2] == '-':
                return self.out(e, 'negation', T(v.ty, -v.hi, -v.lo, v.ruby), quiet)
            if e[2] == '!':
                return T(v.ty, -v.hi - 1, -v.lo - 1, v.ruby) if v.ty[0] == 'i' else full(v.ty, v.ruby)
            return None
        if k == 'lit':
            if isinstance(e[2], bool):
                return None
            if isinstance(e[2], int):
                return T('lit', e[2], e[2])
            m = re.match(r'^(-?[\d_]+|0x[0-9a-fA-F_]+)(i64|i32|u32|u64|usize|u8)?$', str(e[2]))
            if m:
                v = int(m.group(1).replace('_', ''), 0)
                return T(m.group(2) or 'lit', v, v)
            return None
        if k == 'path':
            n = e[2].replace(' ', '')
            m = re.match(r'^(?:std::)?(i64|i32|u32|u64|usize|isize)::(MAX|MIN|BITS)$', n)
            if m:
                lo, hi = TYPES[m.group(1)]
                if m.group(2) == 'BITS':
                    b = 64 if '64' in m.group(1) or 'size' in m.group(1) else 32
                    return T('u32', b, b)
                v = hi if m.group(2) == 'MAX' else lo
                return T(m.group(1), v, v)
            v, since = self.look(e)
            return self.refine(n, v, guards, since) if v is not None else None
        if k == 'cast':
            v = self.ev(e[2], guards, quiet)
            ty = e[3].replace(' ', '')
            if ty not in TYPES:
                return None
            lo, hi = TYPES[ty]
            if v is None:
                return None
            if lo <= v.lo and v.hi <= hi:
                return T(ty, v.lo, v.hi, v.ruby)
            if v.ruby and not quiet and hi - lo < (1 << 63):
                self.report(e, 'narrowing to %s' % ty, v)
            return full(ty, v.ruby)
        if k == 'bin':
            a, b = self.ev(e[3], guards, quiet), self.ev(e[4], guards, quiet)
            op = e[2]
            if a is None or b is None:
                return None
            ty = a.ty if a.ty != 'lit' else b.ty
            if op in ('<<', '>>'):
                ty = a.ty
            ruby = a.ruby or b.ruby
            if ty == 'lit':
                if op in '+-*' and len(op) == 1:
                    r = {'+': (a.lo + b.lo), '-': (a.lo - b.lo), '*': (a.lo * b.lo)}[op]
                    return T('lit', r, r)
                return None
            if op in ('+', '+='):
                return self.out(e, 'addition', T(ty, a.lo + b.lo, a.hi + b.hi, ruby), quiet)
            if op in ('-', '-='):
                return self.out(e, 'subtraction', T(ty, a.lo - b.hi, a.hi - b.lo, ruby), quiet)
            if op in ('*', '*='):
                c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                return self.out(e, 'multiplication', T(ty, min(c), max(c), ruby), quiet)
            if op in ('<<', '<<='):
                if b.lo < 0 or b.hi > 127:
                    return self.out(e, 'shift', T(ty, TYPES[ty][0] - 1, TYPES[ty][1] + 1, ruby), quiet)
                c = [x << y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                return self.out(e, 'shift', T(ty, min(c), max(c), ruby), quiet)
            if op == '>>':
                if b.lo < 0 or b.hi > 63:
                    return self.out(e, 'shift by more than the word', T(ty, TYPES[ty][0] - 1, TYPES[ty][1] + 1, ruby), quiet)
                c = [x >> y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                return T(ty, min(c), max(c), ruby)
            if op == '/':
                if b.lo <= -1 <= b.hi and a.lo == TYPES[ty][0] and a.ty[0] == 'i':
                    return self.out(e, 'division', T(ty, TYPES[ty][0], TYPES[ty][1] + 1, ruby), quiet)
                m = max(abs(a.lo), abs(a.hi))
                return T(ty, max(-m, TYPES[ty][0]), min(m, TYPES[ty][1]), ruby)
            if op == '%':
                m = max(abs(b.lo), abs(b.hi))
                return T(ty, max(-m, TYPES[ty][0]), min(m, TYPES[ty][1]), ruby)
            if op in ('&', '|', '^'):
                if op == '&' and (a.lo >= 0 or b.lo >= 0):
                    hi = min([x.hi for x in (a, b) if x.lo >= 0])
                    return T(ty, 0, hi, ruby)
                return full(ty, ruby)
            return None
        if k == 'mcall':
            n = e[3]
            if n in SRC:
                return T('i64', *SRC[n], True)
            if n == 'len' and not e[4]:
                return T('usize', 0, W - 1)
            v = self.ev(e[2], guards, quiet)
            if v is None:
                return None
            if n in ('clone', 'unwrap', 'to_owned', 'into', 'get') and not e[4]:
                return v if n != 'into' else None
            if n in ('abs', 'pow') and v.ty in TYPES and v.ty[0] == 'i':
                if n == 'abs':
                    return self.out(e, 'absolute value', T(v.ty, 0, max(abs(v.lo), abs(v.hi)), v.ruby), quiet)
                return self.out(e, 'power', T(v.ty, TYPES[v.ty][0] - 1, TYPES[v.ty][1] + 1, v.ruby), quiet)
            if n == 'unsigned_abs':
                return T('u64' if v.ty == 'i64' else 'u32', 0 if v.lo <= 0 <= v.hi else min(abs(v.lo), abs(v.hi)), max(abs(v.lo), abs(v.hi)), v.ruby)
            if n in ('min', 'max') and len(e[4]) == 1:
                o = self.ev(e[4][0], guards, quiet)
                if o is None:
                    return None
                if n == 'min':
                    return T(v.ty, min(v.lo, o.lo), min(v.hi, o.hi), v.ruby)
                return T(v.ty, max(v.lo, o.lo), max(v.hi, o.hi), v.ruby)
            if n == 'clamp' and len(e[4]) == 2:
                a, b = self.ev(e[4][0], guards, quiet), self.ev(e[4][1], guards, quiet)
                return T(v.ty, max(v.lo, a.lo), min(v.hi, b.hi), v.ruby) if a and b and a.lo <= v.hi and v.lo <= b.hi else None
            if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_neg', 'wrapping_shl', 'wrapping_pow', 'saturating_add',
                     'saturating_sub', 'saturating_mul', 'saturating_pow') and v.ruby:
                if not quiet and not proved(self.f, e) and (v.ty == 'i64' or n.startswith('wrapping')):
                    self.report(e, n, full('i64', True))
                return full(v.ty, v.ruby)
            if n in ('rem_euclid', 'signum', 'leading_zeros', 'trailing_zeros', 'count_ones'):
                return None
            return None
        if k == 'if':
            a = self.ev(blockval(e[3]), guards + [('if', e[2], True)], quiet)
            b = self.ev(blockval(e[4]), guards + [('if', e[2], False)], quiet) if e[4] else None
            if e[4] and gone(e[4]):
                return a
            if gone(e[3]):
                return b
            if a is None or b is None:
                return None
            ty = a.ty if a.ty != 'lit' else b.ty
            return T(ty, min(a.lo, b.lo), max(a.hi, b.hi), a.ruby or b.ruby)
        if k == 'call':
            n = path(e[2]) or ''
            m = re.match(r'^(i32|u32|u8|usize|i64|u64)::(try_from|from)$', n.replace(' ', ''))
            if m and e[3]:
                v = self.ev(e[3][0], guards, quiet)
                lo, hi = TYPES[m.group(1)]
                if v is None:
                    return None
                return T(m.group(1), max(lo, v.lo), min(hi, v.hi), v.ruby)
            return None
        if k == 'match':
            vs = [self.ev(blockval(a[4]), guards, True) for a in e[3] if not gone(a[4])]
            if not vs or any(v is None for v in vs):
                return None
            ty = next((v.ty for v in vs if v.ty != 'lit'), 'lit')
            return T(ty, min(v.lo for v in vs), max(v.hi for v in vs), any(v.ruby for v in vs))
        if k in ('block', 'unsafe'):
            return self.ev(blockval(e), guards, quiet)
        return None


def blockval(b):
    if isinstance(b, list) and b and b[0] in ('block', 'unsafe'):
        return b[2][-1] if len(b[2]) == 1 and b[2][-1][0] in ('tail',) else None
    return b


def bare(n):
    return [bare(x) for i, x in enumerate(n) if i != 1] if isinstance(n, list) else n


def asked(e, guards):
    """A dominating condition says that this very value is a small integer."""
    return any(g[0] == 'if' and any(pol and c[0] == 'call' and tail((path(c[2]) or '').replace(' ', '')) == 'is_i63' and bare(c[3][0]) == bare(e)
                                    for c, pol in conj(g[1], g[2])) for g in guards)


def gone(b):
    """The block ends the function."""
    while b[0] in ('block', 'unsafe'):
        if not b[2]:
            return False
        b = b[2][-1]
        if b[0] in ('semi', 'tail'):
            b = b[2]
    return b[0] in ('return', 'break', 'continue') or (b[0] == 'macro' and b[2] in ('unreachable', 'panic', 'unimplemented'))


def strip(e):
    while isinstance(e, list) and e and e[0] in ('paren', 'ref', 'un') and not (e[0] == 'un' and e[2] != '*'):
        e = e[-1]
    return path(e) if isinstance(e, list) and e and e[0] == 'path' else None


def conj(c, pol):
    if c[0] == 'paren':
        return conj(c[2], pol)
    if c[0] == 'un' and c[2] == '!':
        return conj(c[3], not pol)
    if c[0] == 'bin' and ((c[2] == '&&' and pol) or (c[2] == '||' and not pol)):
        return conj(c[3], pol) + conj(c[4], pol)
    return [(c, pol)]


def proved(f, e):
    """A wrapping left shift whose result is used only after shifting it back gave the operand."""
    if e[3] != 'wrapping_shl':
        return False
    names = [l[2][2] for l in find(f.body, 'local') if l[3] is e and l[2][0] == 'pident']
    if not names:
        return False
    n, op, amt = names[0], e[2], e[4]
    ok, bad = 0, 0

    def visit(x, guards, loops):
        nonlocal ok, bad
        if x[0] == 'path' and x[2] == n and x[1] > e[1]:
            test = any(g[0] == 'if' and any(back(c, n, op) and pol for c, pol in conj(g[1], g[2])) for g in guards)
            if test:
                ok += 1
            elif not any(y[0] == 'mcall' and y[3] == 'wrapping_shr' and y[2] is x for y in find(f.body, 'mcall')) and not in_test(f, x, n, op):
                bad += 1
    walk(f.body, [], visit)
    return ok > 0 and bad == 0


def in_test(f, x, n, op):
    """The use is itself behind the shift-back test in the same condition."""
    for c in find(f.body, 'bin'):
        if c[2] == '&&' and back(c[3], n, op) and any(y is x for y in find(c[4], 'path')):
            return True
    return False


def back(c, n, op):
    if c[0] != 'bin' or c[2] != '==':
        return False
    for a, b in ((c[3], c[4]), (c[4], c[3])):
        if a[0] == 'mcall' and a[3] in ('wrapping_shr', 'checked_shr') and strip(a[2]) == n and strip(b) == strip(op):
            return True
    return False


def c33(t):
    bad = []
    facts = dict(functions=0, operations=0, small_results=0, emitters=0, emitted=0)
    for f in t.fns:
        if not f.body or not f.file.startswith(FILES + ARITH):
            continue
        n, found = words(f, None)
        if found:
            given = handed(t, f)
            if given:
                n, found = words(f, given)
        for k, v in n.items():
            facts[k] += v
        bad += found
    emitted(t, bad, facts)
    return facts, bad


def handed(t, f):
    """What the calls of a helper give it for its integer parameters, as far as every call is known."""
    if any('monoruby_builtin' in a for a in f.attrs) or len([x for x in t.by_name[f.name] if x.file == f.file]) > 1:
        return None
    out, calls = {}, 0
    for g in t.fns:
        if not g.body or g is f or g.file != f.file:
            continue
        cs = [c for c in find(g.body, 'call') if tail((path(c[2]) or '').replace(' ', '')) == f.name and len(c[3]) == len(f.params)]
        uses = [p for p in find(g.body, 'path') if tail(p[2].replace(' ', '')) == f.name]
        if len(uses) != len(cs):
            return None
        if not cs:
            continue
        ev = Eval(g, lambda *a: None)
        at = {}
        walk(g.body, [], lambda n, gs, loops: at.setdefault(id(n), list(gs)))
        for c in cs:
            calls += 1
            for p, a in zip(f.params, c[3]):
                v = ev.ev(a, at.get(id(a), []), True)
                o = out.get(p[0], v) if p[0] in out or calls == 1 else None
                ty = p[1].replace(' ', '')
                out[p[0]] = T(ty, min(o.lo, v.lo), max(o.hi, v.hi), ty == 'i64') if o is not None and v is not None and \
                    ty in TYPES else None
    return out if calls else None


def words(f, given):
    bad = []
    facts = dict(functions=0, operations=0, small_results=0)
    seen, told = set(), set()

    def report(n, what, v):
        if (id(n), what) in told or not f.file.startswith(FILES) and (what.startswith('narrowing') or v.ty[0] != 'i'):
            return
        told.add((id(n), what))
        key = '%s:%s' % (what.split()[0], f.full)
        bad.append((key, f.file, n[1], '%s: the %s of Ruby integers held in a machine word can leave the word' % (f.full, what)))
    ev = Eval(f, report, given)
    if not any(v is not None and v.ruby for _, v in ev.env.values()):
        return facts, bad
    facts['functions'] += 1

    def visit(n, guards, loops):
        if n[0] in ('bin', 'un', 'mcall', 'cast') and id(n) not in seen:
            for x in find(n, 'bin', 'un', 'mcall', 'cast'):
                seen.add(id(x))
            v = ev.ev(n, guards)
            if v is not None and v.ruby:
                facts['operations'] += 1
            else:
                for x in find(n, 'bin', 'un', 'mcall', 'cast'):
                    if x is not n:
                        seen.discard(id(x))
        if n[0] == 'mcall' and n[3] in ('unwrap', 'expect') and n[2][0] == 'call' and tail((path(n[2][2]) or '').replace(' ', '')) == 'check_fixnum':
            v = ev.ev(n[2][3][0], guards, True)
            if v is not None and v.ruby and not asked(n[2][3][0], guards):
                facts['small_results'] += 1
                if v.lo < FIX[0] or v.hi > FIX[1]:
                    bad.append(('unwrap:' + f.full, f.file, n[1],
                                '%s: takes for granted that a result is a small integer, which it may not be' % f.full))
        if n[0] == 'call' and path(n[2]) in ('Value::fixnum', 'Value :: fixnum', 'Immediate::fixnum') and n[3]:
            v = ev.ev(n[3][0], guards, True)
            if v is not None and v.ruby and v.ty == 'i64':
                facts['small_results'] += 1
                if v.lo < FIX[0] or v.hi > FIX[1]:
                    bad.append(('fixnum:' + f.full, f.file, n[1],
                                '%s: makes a small integer of a value that may not fit one' % f.full))
    walk(f.body, [], visit)
    return facts, bad


# ---- machine code of the small-integer operators -----------------------------------------------------------------------------

X86 = [('compile/binary_op.rs', 'integer_binop'), ('compile/binary_op.rs', 'integer_binop_imm'), ('compile/binary_op.rs', 'integer_double'),
       ('vmgen.rs', 'int_add'), ('vmgen.rs', 'int_sub'), ('vmgen.rs', 'vm_neg'), ('compile/builtin.rs', 'emit_float_to_int'),
       ('compile/binary_op.rs', 'gen_shl'), ('compile/binary_op.rs', 'gen_shr'), ('compile/binary_op.rs', 'gen_shl_lhs_imm'),
       ('compile/binary_op.rs', 'gen_shl_rhs_imm')]
A64 = [('compile/binary_op.rs', 'a64_integer_binop'), ('compile/binary_op.rs', 'a64_integer_binop_imm'), ('vmgen.rs', 'a64_op_iadd'),
       ('compile/builtin.rs', 'emit_float_to_int'), ('compile/binary_op.rs', 'gen_shl'), ('compile/binary_op.rs', 'gen_shr'),
       ('compile/binary_op.rs', 'gen_shl_lhs_imm'), ('compile/binary_op.rs', 'gen_shl_rhs_imm')]
ARMS = ('IntegerSucc', 'FixnumNeg', 'IntegerDouble')


def asm(n):
    out = []
    body = n[3].split(',', 1)[1] if ',' in n[3] else ''
    for s in body.split(';'):
        s = s.strip()
        while re.match(r'^[a-z_]\w*\s*:(?!:)', s):
            s = s.split(':', 1)[1].strip()
        if s:
            p = s.split(None, 1)
            out.append((n[1], p[0], [x.replace(' ', '') for x in p[1].split(',')] if len(p) > 1 else []))
    return out


def paths(n, cap=64):
    """Instruction sequences emitted below a node, one for each choice the emitter makes."""
    if not isinstance(n, list) or not n:
        return [[]]
    if n[0] == 'macro':
        return [asm(n)] if n[2] in ('monoasm', 'monoasm_arm64') else [[]]
    if n[0] == 'mcall' and n[3] == 'bcond_label' and n[4]:
        return [[(n[1], 'b.' + tail((path(n[4][0]) or '').replace(' ', '')), [])]]
    if n[0] == 'if':
        return (paths(n[3]) + (paths(n[4]) if n[4] else [[]]))[:cap]
    if n[0] == 'match':
        return [p for a in n[3] for p in paths(a[4])][:cap]
    out = [[]]
    for x in n:
        if isinstance(x, list):
            out = [a + b for a in out for b in paths(x)][:cap]
    return out


def shift_ok(seq, i, arch):
    """The shift is taken only if the bits it pushes out are copies of the sign."""
    line, op, a = seq[i]
    if arch == 'aarch64':
        w = seq[i + 1:i + 4]
        if len(w) == 3 and [x[1] for x in w] == ['asr', 'cmp', 'b.Ne'] and w[0][2][1] == a[0] and w[0][2][2] == a[2] and \
                set(w[1][2]) == {w[0][2][0], a[1]}:
            return True
        for j in range(i - 1, max(i - 5, 0), -1):
            if seq[j][1] == 'cmp' and seq[j][2][0] == a[2]:
                return seq[j][2][1] == '#(lzcnt)' and seq[j + 1][1] == 'b.Ge'
        return False
    for j in range(i - 1, max(i - 5, 0), -1):
        if seq[j][1] != 'cmpq':
            continue
        l, r = seq[j][2]
        br = seq[j + 1][1]
        lz = {'(lzcnt)'} | ({seq[j - 1][2][0]} if seq[j - 1][1] == 'lzcntq' and seq[j - 1][2][1] == a[0] else set())
        if l in lz and r == a[1]:
            return br == 'jle'
        if r in lz and l == a[1]:
            return br == 'jge'
        return False
    return False


def judge(seq, i, arch):
    """(instruction grows its operand, and the overflow is caught) for one emitted instruction."""
    line, op, a = seq[i]
    nxt = seq[i + 1][1] if i + 1 < len(seq) else ''
    one = bool(a) and re.match(r'^#?\(?1(u32)?\)?$', a[-1]) is not None
    if arch == 'x86_64':
        if op in ('addq', 'subq') and not one:
            return True, nxt == 'jo'
        if op in ('imul', 'negq'):
            return a != ['rcx'], nxt == 'jo'
        if op in ('salq', 'shlq'):
            return True, (nxt == 'jo' if one else shift_ok(seq, i, arch))
        return False, True
    if op in ('adds', 'subs'):
        return True, nxt == 'b.Vs'
    if op in ('add', 'sub') and not one:
        return not re.search('lsl|PC|LFP|sp', ''.join(a)), False
    if op == 'lsl':
        return True, shift_ok(seq, i, arch)
    if op == 'mul':
        w = seq[i + 1:i + 5]
        return True, [x[1] for x in w] == ['smulh', 'asr', 'cmp', 'b.Ne'] and w[0][2][1:] == a[1:] and w[1][2][1] == a[0]
    return False, True


def emitted(t, bad, facts):
    units = []
    for lst, arch in ((X86, 'x86_64'), (A64, 'aarch64')):
        for file, name in lst:
            r = [f for f in t.fns if f.file == 'codegen/arch/%s/%s' % (arch, file) and f.name == name]
            if len(r) != 1:
                raise AnchorMissing('%s in codegen/arch/%s/%s' % (name, arch, file))
            f = r[0]
            arms = [a for m in choices(f.body) for a in m[3] if 'BinOpK' in str(a[2]) and any(find(a[4], 'macro'))]
            for a in arms:
                k = '|'.join(sorted({tail(p[2].replace(' ', '')) for p in find(a[2], 'ppath', 'path')}))
                units.append((arch, f, '%s %s' % (name, k), a[4], k in ('Add', 'Sub', 'Mul')))
            if not arms:
                units.append((arch, f, name, f.body, True))
        got = set()
        for f in t.fns:
            if f.file == 'codegen/arch/%s/compile/mod.rs' % arch and f.body:
                for m in choices(f.body):
                    for a in m[3]:
                        nm = [tail(p[2].replace(' ', '')) for p in find(a[2], 'pstruct', 'pts') if p[2].replace(' ', '').startswith('LInst::')]
                        if len(nm) == 1 and nm[0] in ARMS:
                            got.add(nm[0])
                            units.append((arch, f, nm[0], a[4], False))
        if got != set(ARMS):
            raise AnchorMissing('%s: emitters of %s' % (arch, sorted(set(ARMS) - got)))
    for arch, f, name, body, need in units:
        facts['emitters'] += 1
        n, seen = 0, set()
        for seq in paths(body):
            for i, (line, op, a) in enumerate(seq):
                grow, ok = judge(seq, i, arch)
                if not grow:
                    continue
                n += 1
                k = (line, op, tuple(a), ok)
                if k in seen:
                    continue
                seen.add(k)
                facts['emitted'] += 1
                if not ok:
                    bad.append(('emit:%s:%s:%s' % (arch, name, op), f.file, line,
                                '%s: the emitted %s can carry out of the small-integer range without the branch that catches it' % (name, op)))
        if need and not n:
            bad.append(('emit:%s:%s:none' % (arch, name), f.file, f.line, '%s: no checked arithmetic instruction is emitted' % name))
