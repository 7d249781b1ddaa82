"""C24: the bytecode encoder, the decoder and the two interpreters agree.

The encoder arm of every instruction and the decoder arm of every opcode are evaluated on abstract words: a word is a set
of (position, width, operand) placements, an extraction is a (word, position, width).  Operands of a small domain (booleans,
operator kinds) are enumerated, everything else stays symbolic.  Nothing of the interpreter is run.
"""
import re
import syntree
from framework import AnchorMissing
from syntree import find, path, tail

W = {'u8': 8, 'u16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'usize': 64, 'i64': 64, 'i16': 16}
# newtypes whose constructor or accessor carries the number through
WRAP = {'SlotId::new', 'SlotId::from', 'IdentId::from', 'FuncId::new', 'ConstSiteId', 'CallSiteId::from', 'OptCaseId::from',
        'Value::from_u64', 'BcReg::from', 'Some', 'Bc2::from', 'Bc2', 'Self', 'u64::from', 'u32::from', 'u16::from',
        'CallSiteId::new', 'Box::new', 'Ok'}
UNWRAP = {'get', 'id', 'clone', 'into', 'unwrap', 'iter'}


class Fail(Exception):
    def __init__(self, line, msg):
        self.line, self.msg = line, msg


class Word:
    """(lo, width, operand) placements; bits not covered are zero."""

    def __init__(self, parts):
        self.parts = sorted(parts, key=lambda p: p[0])

    def __repr__(self):
        return 'Word%r' % (self.parts,)


OPAQUE = ('opaque',)
# register counts and numbers of the method prologue: bounded by the 16-bit register numbers elsewhere
SLOTLIKE = {'0.destruct_len', '0.destruct_start'}


class Eval:
    def __init__(self, t, enums):
        self.t, self.enums = t, enums      # enums: name -> {variant: discriminant}
        self.simple, self.opcode = False, OPAQUE

    # ---- values: ('int', n), ('bool', b), ('enum', type, variant), Word, ('op', name), ('rel', name), ('opt', v),
    #      ('bits', word, lo, width), ('tuple', [..]), ('rec', name, {field: v}), OPAQUE
    def block(self, stmts, env):
        env = dict(env)
        v = OPAQUE
        for s in stmts:
            if s[0] == 'local':
                self.bind(s[2], self.ev(s[3], env) if s[3] else OPAQUE, env)
            elif s[0] == 'tail':
                v = self.ev(s[2], env)
        return v

    def bind(self, p, v, env):
        if p[0] == 'pident':
            env[p[2]] = v
        elif p[0] == 'ptype':
            self.bind(p[2], v, env)
        elif p[0] == 'ptuple':
            for i, q in enumerate(p[2]):
                self.bind(q, self.part(v, i), env)
        elif p[0] == 'pts' and tail(p[2].replace(' ', '')) == 'Some' and not (isinstance(v, tuple) and v[0] == 'tuple'):
            self.bind(p[3][0], v, env)
        elif p[0] == 'pts':
            for i, q in enumerate(p[3]):
                self.bind(q, self.part(v, i), env)
        elif p[0] == 'pstruct':
            for q in p[3]:
                name, sub = q[0], q[1]
                self.bind(sub, self.part(v, name), env)
        elif p[0] == 'pother' and isinstance(p[2], str) and re.match(r'box \w+$', p[2]):
            env[p[2][4:]] = v

    def part(self, v, i):
        if isinstance(v, tuple):
            if v[0] == 'tuple' and isinstance(i, int) and i < len(v[1]):
                return v[1][i]
            if v[0] == 'rec':
                return v[2].get(i, OPAQUE)
            if v[0] == 'op':
                return ('op', '%s.%s' % (v[1], i))
            if v[0] in ('opt', 'bits', 'int', 'bool') and i in (0, '0'):
                return v[1] if v[0] == 'opt' else v
        return OPAQUE

    def width(self, v):
        if isinstance(v, tuple) and v[0] == 'bits':
            return v[3]
        return None

    def cast(self, v, ty, line):
        w = W.get(ty.replace(' ', ''))
        if w is None:
            return v
        if isinstance(v, tuple):
            if v[0] == 'enum':
                return ('int', self.enums[v[1]][v[2]])
            if v[0] == 'bool':
                return ('int', int(v[1]))
            if v[0] == 'bits':
                return ('bits', v[1], v[2], min(v[3], w))
            if v[0] == 'int':
                return ('int', v[1] & ((1 << w) - 1))
        if isinstance(v, Word):
            return Word([(lo, min(x, w - lo), o) for lo, x, o in v.parts if lo < w])
        if isinstance(v, tuple) and v[0] in ('op', 'opt', 'rel', 'plus1', 'new', 'opaque', 'sized'):
            return ('sized', min(w, 16) if v[0] == 'op' and v[1] in SLOTLIKE else w, v)
        return v

    def word(self, v):
        """A value as a word: placed at bit 0 with the width it was cast to."""
        if isinstance(v, Word):
            return v
        if isinstance(v, tuple):
            if v[0] == 'int':
                return Word([(lo, 16, ('int', v[1] >> lo & 0xffff)) for lo in (0, 16, 32, 48) if v[1] >> lo & 0xffff])
            if v[0] == 'sized':
                o, w = v[2], v[1]
                while isinstance(o, tuple) and (o[0] == 'sized' or o[0] == 'opt' and self.sized(o[1])):
                    o, w = (o[2], min(w, o[1])) if o[0] == 'sized' else (('opt', o[1][2]), min(w, o[1][1]))
                return Word([(0, w, o)])
        return Word([(0, 64, v)])

    def ev(self, n, env):
        k = n[0]
        if k == 'path':
            p = n[2].replace(' ', '')
            if p in env:
                return env[p]
            if p.startswith('TraceIr::'):
                return ('rec', tail(p), {})
            seg = p.split('::')
            if len(seg) >= 2 and seg[-2] in self.enums and seg[-1] in self.enums[seg[-2]]:
                return ('enum', seg[-2], seg[-1])
            if p == 'None':
                return ('int', 0)
            return OPAQUE
        if k == 'lit':
            if isinstance(n[2], bool):
                return ('bool', n[2])
            return ('int', n[2]) if isinstance(n[2], int) else OPAQUE
        if k in ('ref', 'paren', 'group'):
            return self.ev(n[-1], env)
        if k == 'un':
            v = self.ev(n[3], env)
            if n[2] == '-' and v[0] == 'int':
                return ('int', -v[1])
            return v if n[2] == '*' else OPAQUE
        if k == 'try':
            return self.ev(n[2], env)
        if k == 'cast':
            return self.cast(self.ev(n[2], env), n[3], n[1])
        if k == 'field':
            if path(n[2]) == 'self' and 'self' not in env:
                return OPAQUE
            v = self.ev(n[2], env)
            if n[3] == '0' and isinstance(v, tuple) and v[0] in ('op', 'opt', 'new', 'sized'):
                return ('sized', 16, v) if v[0] in ('op', 'opt') else v
            return self.part(v, int(n[3]) if n[3].isdigit() else n[3])
        if k == 'index':
            if path(n[2]) == 'self':
                v = self.ev(n[3], env)
                return ('pos', v[1]) if isinstance(v, tuple) and v[0] == 'op' else OPAQUE
            return OPAQUE
        if k == 'tuple':
            return ('tuple', [self.ev(x, env) for x in n[2]])
        if k in ('block', 'unsafe'):
            return self.block(n[2], env)
        if k == 'bin':
            return self.binop(n, env)
        if k == 'if':
            return self.cond(n, env)
        if k == 'match':
            return self.match(n, env)
        if k == 'call':
            return self.call(n, env)
        if k == 'mcall':
            return self.mcall(n, env)
        if k == 'struct':
            return ('rec', tail(n[2].replace(' ', '')), {f: self.ev(e, env) for f, e in n[3]})
        if k == 'macro':
            return ('never',) if tail(n[2].replace(' ', '')) in ('unreachable', 'panic', 'unimplemented', 'todo') else OPAQUE
        return OPAQUE

    def binop(self, n, env):
        op, l, r = n[2], self.ev(n[3], env), self.ev(n[4], env)
        li, ri = isinstance(l, tuple) and l[0] == 'int', isinstance(r, tuple) and r[0] == 'int'
        if li and ri:
            a, b = l[1], r[1]
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return ('bool', eval('a %s b' % op))
            if op in ('+', '-', '*', '&', '|', '^', '<<', '>>'):
                return ('int', eval('a %s b' % op))
            return OPAQUE
        if op == '<<' and ri:
            w = self.word(l)
            return Word([(lo + r[1], x, o) for lo, x, o in w.parts])
        if op in ('+', '|') and (isinstance(l, Word) or isinstance(r, Word) or self.sized(l) or self.sized(r)):
            a, b = self.word(l), self.word(r)
            parts = a.parts + b.parts
            parts = [(lo, self.fit(lo, x, o), o) for lo, x, o in parts]
            for i, (lo, x, o) in enumerate(parts):
                for lo2, x2, o2 in parts[i + 1:]:
                    if lo < lo2 + x2 and lo2 < lo + x:
                        raise Fail(n[1], 'operands %s and %s share bits of the word' % (show(o), show(o2)))
            return Word(parts)
        if op == '>>' and ri and isinstance(l, tuple) and l[0] == 'bits':
            return ('bits', l[1], l[2] + r[1], l[3] - r[1])
        if op == '-' and isinstance(l, tuple) and l[0] == 'pos' and path(n[4]) == 'bc_pos':
            return ('rel', l[1], 0)
        if op in ('-', '+') and ri and isinstance(l, tuple):
            if l[0] == 'rel':
                return ('rel', l[1], l[2] + (r[1] if op == '+' else -r[1]))
            if l[0] == 'op' and op == '+' and r[1] == 1:
                return ('plus1', l)
            if l[0] == 'bits' and op == '-' and r[1] == 1:
                return ('minus1', l)
        if op == '==' and ri and isinstance(l, tuple) and l[0] == 'bits':
            return ('iszero', l) if r[1] == 0 else OPAQUE
        return OPAQUE

    def sized(self, v):
        return isinstance(v, tuple) and v[0] == 'sized'

    def fit(self, lo, w, o):
        if isinstance(o, tuple) and o[0] == 'int':
            return max(1, o[1].bit_length())
        return w

    def cond(self, n, env):
        c = n[2]
        if c[0] == 'let':
            v = self.ev(c[3], env)
            e2 = dict(env)
            self.bind(c[2], ('op', v[1]) if isinstance(v, tuple) and v[0] == 'op' else v, e2)
            if isinstance(v, tuple) and v == ('int', 0):      # None
                return self.ev(n[4], env)
            a = self.ev(n[3], e2)
            b = self.ev(n[4], env) if n[4] else OPAQUE
            return self.phi(a, b)
        v = self.ev(c, env)
        if isinstance(v, tuple) and v[0] == 'bool':
            return self.ev(n[3] if v[1] else n[4], env) if (v[1] or n[4]) else OPAQUE
        a, b = self.ev(n[3], env), self.ev(n[4], env) if n[4] else OPAQUE
        if isinstance(v, tuple) and v[0] == 'iszero' and a == ('int', 0) and isinstance(b, tuple) and b == ('minus1', v[1]):
            return ('dec1', v[1])
        return self.phi(a, b)

    def phi(self, a, b):
        if a == b:
            return a
        for x, y in ((a, b), (b, a)):
            if x == ('int', 0) and isinstance(y, tuple) and y[0] in ('op', 'plus1', 'sized'):
                return ('sized', y[1], ('opt', y[2])) if y[0] == 'sized' else ('opt', y)
        return OPAQUE

    def match(self, n, env):
        v = self.ev(n[2], env)
        if isinstance(v, tuple) and v[0] in ('int', 'bool', 'enum'):
            for arm in n[3]:
                b = self.matches(arm[2], v)
                if b is None:
                    return OPAQUE
                if b:
                    e2 = dict(env)
                    if arm[2][0] == 'pident':
                        e2[arm[2][2]] = v
                    return self.ev(arm[4], e2)
            return OPAQUE
        out = None
        for arm in n[3]:
            e2 = dict(env)
            p = arm[2]
            if p[0] == 'pts' and isinstance(v, tuple) and v[0] == 'op':
                self.bind(p, ('tuple', [v]), e2)
            x = self.ev(arm[4], e2)
            out = x if out is None else self.phi(out, x)
        return out

    def matches(self, p, v):
        k = p[0]
        if k in ('pwild', 'pident'):
            return True
        if k == 'plit':
            return v[1] == p[2] if v[0] in ('int', 'bool') else None
        if k == 'por':
            r = [self.matches(q, v) for q in p[2]]
            return None if None in r else any(r)
        if k == 'prange':
            lo, hi = p[2], p[3]
            lo = lo[2] if isinstance(lo, list) else lo
            hi = hi[2] if isinstance(hi, list) else hi
            if not (isinstance(lo, int) and isinstance(hi, int) and v[0] == 'int'):
                return None
            closed = p[4] if len(p) > 4 else True
            return lo <= v[1] <= hi if closed else lo <= v[1] < hi
        if k in ('ppath',):
            return v[0] == 'enum' and tail(p[2].replace(' ', '')) == v[2]
        return None

    def call(self, n, env):
        p = path(n[2])
        args = [self.ev(a, env) for a in n[3]]
        if p is None:
            return OPAQUE
        q = re.sub(r'::<.*?>', '', p)
        if q == 'TraceIr::from_pc':
            return OPAQUE
        if q.startswith(('TraceIr::', 'Self::')) and tail(q)[:1].islower():
            for f in self.t.by_name.get(tail(q), ()):
                if f.file == 'codegen/jitgen/trace_ir.rs' and f.owner == 'TraceIr':
                    return self.ev(f.body, self.params(f, args, n[1]))
        if q.startswith('TraceIr::'):
            return ('rec', tail(q), dict(enumerate(args)))
        ty = q.rsplit('::', 1)[0].split('::')[-1] if '::' in q else None
        if ty in self.enums and tail(q) == 'from' and args and args[0][0] == 'int':
            for f in self.t.by_name.get('from', ()):
                if f.owner == ty and f.body and f.params and f.params[0][1].replace(' ', '') in W:
                    return self.ev(f.body, {f.params[0][0]: args[0], 'Self': None})
        if q in ('u16::from', 'u32::from', 'u64::from') and args[0][0] == 'bool':
            return ('int', int(args[0][1]))
        if q == 'SlotId::self_':
            return ('int', 0)
        if q in WRAP or (tail(q) == 'new' and ty in ('SlotId', 'IdentId', 'FuncId')):
            return args[0] if args else OPAQUE
        if q.startswith('Bytecode::'):
            f = self.t.fn(tail(q), 'bytecode.rs', 'Bytecode')
            return self.ev(f.body, self.params(f, args, n[1]))
        if tail(q).startswith('class') and q.startswith('Bc2::'):
            f = self.t.fn(tail(q), 'bytecode.rs', 'Bc2')
            return self.ev(f.body, self.params(f, args, n[1]))
        for f in self.t.by_name.get(tail(q), ()):
            if not f.owner and f.file in ('bytecodegen/encode.rs', 'codegen/jitgen/trace_ir.rs') and '::' not in q:
                return self.ev(f.body, self.params(f, args, n[1]))
        return OPAQUE

    def params(self, f, args, line):
        ps = [p for p in f.params if p[0] != 'self']
        return {p[0]: self.cast(a, p[1], line) for p, a in zip(ps, args)}

    def mcall(self, n, env):
        recv, name, args = n[2], n[3], n[4]
        if name == 'slot_id' and path(recv) == 'self':
            return ('sized', 16, self.ev(args[0], env))
        if name == 'is_simple':
            return ('bool', self.simple)
        if name in ('new_callsite', 'new_constsite', 'new_constsite_with_loc', 'new_optcase'):
            return ('new', name.replace('_with_loc', ''))
        if path(recv) == 'self':
            for f in self.t.by_name.get(name, ()):
                if f.file == 'bytecodegen/encode.rs' and f.ret and ('Bytecode' in f.ret or 'u64' in f.ret):
                    return self.ev(f.body, self.params(f, [self.ev(a, env) for a in args], n[1]))
        if self.ev(recv, env) == ('pc',):
            if name in ('op1', 'op2'):
                return ('bits', name, 0, 64)
            if name == 'opcode':
                return self.opcode
            return OPAQUE
        v = self.ev(recv, env)
        if name == 'map_or' and len(args) == 2 and args[1][0] == 'closure':
            d = self.ev(args[0], env)
            e2 = dict(env)
            for q in args[1][2]:
                self.bind(q, v, e2)
            return self.phi(d, self.ev(args[1][3], e2))
        if name == 'map' and args and args[0][0] == 'closure':
            e2 = dict(env)
            for q in args[0][2]:
                self.bind(q, v, e2)
            return self.ev(args[0][3], e2)
        if name in UNWRAP:
            if name in ('get', 'id') and isinstance(v, tuple) and v[0] in ('op', 'new', 'opt'):
                return ('sized', 64 if name == 'id' else 32, v)
            return v
        return OPAQUE


def show(o):
    if isinstance(o, tuple):
        if o[0] == 'op':
            return o[1]
        if o[0] in ('opt', 'plus1'):
            return show(o[1])
        if o[0] == 'rel':
            return 'displacement of ' + str(o[1])
        if o[0] == 'new':
            return o[1]
        if o[0] == 'sized':
            return show(o[2])
        if o[0] == 'int':
            return str(o[1])
    return repr(o)


def discriminants(t, name):
    e = t.enum(name)
    out, nxt = {}, 0
    for v in e[4]:
        d = v[2]
        if isinstance(d, list):
            d = d[2]
        nxt = d if isinstance(d, int) else nxt
        out[v[0]] = nxt
        nxt += 1
    return out


def arms_of(t):
    """The encoder arms: variant -> (arm, variant definition)."""
    f = t.fn('inst_to_bc', 'bytecodegen/encode.rs')
    e = t.enum('BytecodeInst')
    ms = [m for m in find(f.body, 'match') if path(m[2]) == f.params[2][0]]
    if len(ms) != 1:
        raise AnchorMissing('the encoder dispatch')
    out = {}
    for arm in ms[0][3]:
        for p in (arm[2][2] if arm[2][0] == 'por' else [arm[2]]):
            nm = tail((p[2] if len(p) > 2 and isinstance(p[2], str) else '').replace(' ', ''))
            out[nm] = (arm, p)
    return f, {v[0]: v for v in e[4]}, out


def encode(t, E):
    """[(variant, assignment, opcode, op1 word, op2 word, line)]; problems."""
    f, variants, arms = arms_of(t)
    out, bad = [], []
    for name, v in variants.items():
        if name not in arms:
            raise AnchorMissing('no encoder arm for ' + name)
        arm, pat = arms[name]
        fields = [(fn if fn and not str(fn).isdigit() else i, ty.replace(' ', '')) for i, (fn, ty) in enumerate(v[1])]
        dom = []
        for fn, ty in fields:
            base = ty.split('::')[-1]
            if ty == 'bool':
                dom.append([(fn, ('bool', False)), (fn, ('bool', True))])
            elif base in E.enums and base != 'BytecodeInst':
                dom.append([(fn, ('enum', base, x)) for x in E.enums[base]])
        simple = any(ty == 'Box<CallSite>' for _, ty in fields) and any(m[3] == 'is_simple' for m in find(arm, 'mcall'))
        if simple:
            dom.append([('$simple', ('bool', False)), ('$simple', ('bool', True))])
        asg = [{}]
        for d in dom:
            asg = [dict(a, **{k if isinstance(k, str) else '#%d' % k: val}) for a in asg for k, val in d]
        for a in asg:
            E.simple = a.get('$simple', ('bool', False))[1]
            env = {}
            if pat[0] == 'pts':
                for i, q in enumerate(pat[3]):
                    E.bind(q, a.get('#%d' % i, ('op', str(i))), env)
            elif pat[0] == 'pstruct':
                for q in pat[3]:
                    E.bind(q[1], a.get(q[0], ('op', q[0])), env)
            try:
                r = E.ev(arm[4], env)
            except Fail as e:
                bad.append((f, e.line, 'overlap|' + name, '%s: %s' % (name, e.msg)))
                continue
            if not (isinstance(r, tuple) and r[0] == 'rec' and 'op1' in r[2] and 'op2' in r[2]):
                raise AnchorMissing('encoding of %s is not understood' % name)
            w1, w2 = E.word(r[2]['op1']), E.word(r[2]['op2'])
            opc = [o for lo, w, o in w1.parts if lo >= 48]
            if len(opc) != 1 or not (isinstance(opc[0], tuple) and opc[0][0] == 'int'):
                raise AnchorMissing('opcode of %s is not understood: %r' % (name, w1))
            code = opc[0][1] << ([lo for lo, w, o in w1.parts if lo >= 48][0] - 48)
            if not 0 <= code < 256:
                bad.append((f, arm[1], 'range|' + name, 'opcode %d of %s does not fit the opcode byte' % (code, name)))
                continue
            out.append((name, a, code, Word([p for p in w1.parts if p[0] < 48]), w2, arm[1]))
    return f, out, bad


def decode(t, E, code):
    f = t.fn('from_pc', 'codegen/jitgen/trace_ir.rs', 'TraceIr')
    E.opcode = ('int', code)
    return f, E.ev(f.body, {f.params[0][0]: ('pc',)})


def at(w1, w2, b):
    """The operand the extraction b reads from the words."""
    word = w1 if b[1] == 'op1' else w2
    lo, w = b[2], b[3]
    hit = [(l, x, o) for l, x, o in word.parts if l < lo + w and lo < l + x]
    if not hit:
        return ('int', 0)
    if len(hit) == 1 and hit[0][0] == lo:
        l, x, o = hit[0]
        if x == w or x < w and not [p for p in word.parts if p is not hit[0] and p[0] < lo + w and lo < p[0] + p[1]]:
            return o
        if w < x:                       # narrower read of a wider field: all of a slot number
            return o if w >= 16 and isinstance(o, tuple) and narrow(o) else None
    return None


def narrow(o):
    return o[0] == 'sized' and o[1] <= 16 or o[0] == 'slot'


def strip(o):
    while isinstance(o, tuple) and o[0] in ('sized', 'opt'):
        o = o[2] if o[0] == 'sized' else o[1]
    return o


ALIAS = {'dst': ('dst', 'ret'), '_dst': ('dst', 'ret'), 'src': ('src', 'val', 'recv'), 'idx': ('idx', 'index'),
         'cond': ('cond', 'reg')}
SITES = {'siteid': 'new_constsite', 'callid': 'new_callsite'}
RENAME = {'StoreIndex': 'IndexAssign', 'CheckConst': 'LoadConst', 'Super': 'MethodCall'}
# (instruction, path of the decoded leaf) -> operand of the encoder
FIELDS = {
    ('LoadConst', '0'): 'dst', ('LoadConst', '1'): '@new_constsite',
    ('CheckConst', '0'): 'dst', ('CheckConst', '1'): '@new_constsite',
    ('StoreConst', '0'): 'src', ('StoreConst', '1'): '@new_constsite',
    ('Array', 'dst'): '0', ('Index', '_dst'): '0', ('Index', 'base'): '1', ('Index', 'idx'): '2',
    ('BinOp', 'dst'): '1', ('BinOp', 'lhs'): '2.0', ('BinOp', 'rhs'): '2.1', ('BinOp', 'kind'): '#0',
    ('Cmp', 'dst'): '1', ('Cmp', '_dst'): '1', ('Cmp', 'lhs'): '2.0', ('Cmp', 'rhs'): '2.1', ('Cmp', 'kind'): '#0',
    ('LoadDynVar', '0'): 'dst', ('LoadDynVar', '1.reg'): 'src', ('LoadDynVar', '1.outer'): 'outer',
    ('StoreDynVar', '0.reg'): 'dst', ('StoreDynVar', '0.outer'): 'outer', ('StoreDynVar', '1'): 'src',
    ('ExpandArray', 'src'): '0', ('ExpandArray', 'dst.0'): '1', ('ExpandArray', 'dst.1'): '2', ('ExpandArray', 'dst.2'): '3',
    ('UnOp', 'kind'): 'kind', ('LoopStart', 'counter'): None,      # counted up by the interpreter
}
# handler-side only: the optimizing compiler does not visit exception handlers
UNDECODED = {'RescueTEq': 'matches of rescue clauses run only in exception handlers, which are not compiled',
             ('ArrayTEq', True): 'splatted rescue clauses run only in exception handlers, which are not compiled'}


def leaves(v, p=()):
    if isinstance(v, tuple) and v[0] == 'rec':
        for k, x in v[2].items():
            yield from leaves(x, p + (str(k),))
    elif isinstance(v, tuple) and v[0] == 'tuple':
        for i, x in enumerate(v[1]):
            yield from leaves(x, p + (str(i),))
    else:
        yield '.'.join(p), v


def expected(name, leaf, asg):
    if (name, leaf) in FIELDS:
        return FIELDS[(name, leaf)]
    if leaf in SITES:
        return '@' + SITES[leaf]
    return leaf


def agree(t):
    E = Eval(t, {n: discriminants(t, n) for n in ('CmpKind', 'BinOpK', 'UnOpK', 'BrKind')})
    f, enc, bad = encode(t, E)
    compared = 0
    first = {}
    for name, a, code, w1, w2, line in enc:
        who = name + ('(%s)' % ', '.join('%s=%s' % (k.strip('#$'), x[-1]) for k, x in a.items()) if a else '')
        if code in first and first[code][0] == name and repr((w1, w2)) == first[code][2]:
            continue                    # an operand that is kept outside the word
        if code in first:
            bad.append((f, line, 'shared|%d' % code, '%s and %s are both encoded as opcode %d' % (first[code][1], who, code)))
            continue
        first[code] = (name, who, repr((w1, w2)))
        g, d = decode(t, E, code)
        if not (isinstance(d, tuple) and d[0] == 'rec'):
            if name in UNDECODED or (name, a.get('rescue_clause', (0, None))[1]) in UNDECODED:
                continue
            bad.append((g, g.line, 'undecoded|' + who, 'opcode %d of %s is not decoded' % (code, who)))
            continue
        want = RENAME.get(name, name)
        if name == 'Cmp':
            want = 'BinCmpBr' if a['#3'][1] else 'BinCmp'
        if d[1] != want:
            bad.append((g, g.line, 'operation|' + who, 'opcode %d of %s is decoded as %s' % (code, who, d[1])))
            continue
        for leaf, v in leaves(d):
            exp = expected(name, leaf, a)
            if exp is None:
                continue
            if isinstance(v, tuple) and v[0] in ('enum', 'bool') and ('#' + exp.lstrip('#') in a or exp in a):
                x = a.get('#' + exp.lstrip('#'), a.get(exp))
                compared += 1
                if x != v:
                    bad.append((g, g.line, 'kind|%s|%s' % (who, leaf), 'opcode %d of %s is decoded with %s' %
                                (code, who, v[-1])))
                continue
            b, plus = v, False
            if isinstance(v, tuple) and v[0] == 'dec1':
                b, plus = v[1], True
            if not (isinstance(b, tuple) and b[0] == 'bits'):
                continue
            compared += 1
            o = at(w1, w2, b)
            s = strip(o) if o is not None else None
            if s is not None and s[0] == 'plus1':
                s = strip(s[1])
                if not plus:
                    s = None
            elif plus:
                s = None
            ok = False
            if s is not None:
                if s[0] == 'new':
                    ok = exp == '@' + s[1]
                elif s[0] == 'rel':
                    ok = s[1] == exp and s[2] == -1
                elif s[0] == 'op':
                    ok = s[1] == exp or s[1] in ALIAS.get(exp, ()) or s[1].endswith('.' + exp) and s[1].split('.')[0] == '0' \
                        or s[1] == leaf
            if not ok:
                bad.append((g, g.line, 'operand|%s|%s' % (name, leaf),
                            'operand %s of %s is read from bits %d..%d of %s, where the encoder puts %s' %
                            (leaf, who, b[2], b[2] + b[3], b[1], show(o) if o is not None else 'parts of other operands')))
    return f, E, enc, bad, compared


# ---- the interpreters ----------------------------------------------------------------------------------------------

ARCHS = ('x86_64', 'aarch64')
# instruction (with the operand that selects it) -> handler
HANDLER = {
    'SingletonMethodDef': 'singleton_method_def', 'MethodDef': 'method_def', 'Br': 'br_inst',
    ('CondBr', 'BrIf'): 'condbr', ('CondBr', 'BrIfNot'): 'condnotbr', 'FrozenLiteral': 'immediate', 'Literal': 'literal',
    'LoadConst': 'load_const', 'StoreConst': 'store_const', 'LoopStart': 'loop_start', 'LoopEnd': 'loop_end',
    'LoadIvar': 'load_ivar', 'StoreIvar': 'store_ivar', 'CheckConst': 'check_const', 'CheckKwRest': 'check_kw_rest',
    'CheckLocal': 'check_local', 'BlockArgProxy': 'block_arg_proxy', 'SingletonClassDef': 'singleton_class_def',
    'BlockArg': 'block_arg', 'CheckCvar': 'check_cvar', 'LoadGvar': 'load_gvar', 'StoreGvar': 'store_gvar',
    'LoadCvar': 'load_cvar', 'AliasGvar': 'alias_gvar', 'StoreCvar': 'store_cvar', ('MethodCall', True): 'send_simple',
    ('MethodCall', False): 'send', ('Super', True): 'send_simple', ('Super', False): 'send', ('Yield', True): 'yield_',
    ('Yield', False): 'yield2', 'OptCase': 'optcase', 'NilBr': 'nilbr', 'Lambda': 'lambda', 'Array': 'array',
    ('ArrayTEq', False): 'array_teq', ('ArrayTEq', True): 'rescue_array_teq', 'ArrayConcat': 'array_concat',
    'HashInsert': 'hash_insert', 'ArrayAny': 'array_any', 'DefinedYield': 'defined_yield', 'DefinedConst': 'defined_const',
    'DefinedMethod': 'defined_method', 'DefinedGvar': 'defined_gvar', 'DefinedIvar': 'defined_ivar',
    'DefinedSuper': 'defined_super', 'DefinedCvar': 'defined_cvar', 'ClassDef': 'class_def', 'ModuleDef': 'module_def',
    'Ret': 'ret', 'MethodRet': 'method_ret', 'BlockBreak': 'block_break', 'Raise': 'raise_err', 'Retry': 'retry',
    'Redo': 'redo', 'EnsureEnd': 'ensure_end', 'ConcatRegexp': 'concat_regexp', ('UnOp', 'Pos'): 'pos',
    ('UnOp', 'Neg'): 'neg', ('UnOp', 'BitNot'): 'bitnot', ('UnOp', 'Not'): 'not', 'Index': 'index',
    'StoreIndex': 'index_assign', 'RescueTEq': 'teq_rescue', 'LoadDynVar': 'load_dvar', 'StoreDynVar': 'store_dvar',
    ('BinOp', 'Add'): 'add', ('BinOp', 'Sub'): 'sub', ('BinOp', 'Mul'): 'mul', ('BinOp', 'Div'): 'div',
    ('BinOp', 'BitOr'): 'bitor', ('BinOp', 'BitAnd'): 'bitand', ('BinOp', 'BitXor'): 'bitxor', ('BinOp', 'Rem'): 'rem',
    ('BinOp', 'Exp'): 'pow', ('BinOp', 'Shl'): 'shl', ('BinOp', 'Shr'): 'shr', 'InitMethod': 'init',
    'ExpandArray': 'expand_array', 'UndefMethod': 'undef_method', 'AliasMethod': 'alias_method', 'Hash': 'hash',
    'ToA': 'to_a', 'Mov': 'mov', ('Range', False): 'range_incl', ('Range', True): 'range_excl', 'ConcatStr': 'concat',
}
CMP = {'Eq': 'eq', 'Ne': 'ne', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge', 'TEq': 'teq'}
# never dispatched to: skipped by the call before it
DATA = {'InlineCache'}
# helpers that only record what was seen or hand the loop to the compiler
SIDE = {'pmc_record_binary', 'pmc_record_unary', 'jit_compile_loop', 'exec_jit_partial_compile', 'exec_gc'}
# entries one interpreter serves with its general handler, where the other has a faster one
SHARED = {('aarch64', 'yield2', 'yield_')}
# operands of instructions a handler does not need, per interpreter
UNREAD = {
    'retry': 'the target is found in the exception table', 'redo': 'the target is found in the exception table',
    'yield_': 'the receiver of a yield is the receiver of the block', 'yield2': 'the receiver of a yield is the receiver of the block',
}
WIDTH_X86 = {'movsxl': 32, 'movl': 32, 'movzxw': 16, 'movsxw': 16, 'movw': 16, 'movq': 64, 'subw': 16, 'cmpl': 32, 'addl': 32,
             'movb': 8, 'cmpw': 16, 'addw': 16, 'cmpq': 64, 'cmpb': 8, 'subl': 32, 'movsxd': 32, 'movzxb': 8}
WIDTH_A64 = {'ldrh': 16, 'ldrsh': 16, 'ldrsw': 32, 'ldrb': 8}


def wanted(name, a):
    if name in DATA:
        return None
    if name in HANDLER:
        return HANDLER[name]
    vals = [x[-1] for x in a.values()]
    if name == 'Cmp':
        kind, opt = a['#0'][2], a['#3'][1]
        return 'teq_case' if opt and kind == 'TEq' else CMP[kind]
    for v in vals:
        if (name, v) in HANDLER:
            return HANDLER[(name, v)]
    raise AnchorMissing('no handler is known for the instruction ' + name)


class Arch:
    """What each handler of one interpreter reads and calls."""

    def __init__(self, t, arch):
        self.t, self.arch = t, arch
        self.gen = t.fn('gen_vm_handlers', 'codegen/arch/%s/vmgen.rs' % arch)
        self.consts = {}
        for c in t.consts:
            if c[0].startswith('codegen/arch/' + arch):
                v = self.const(c[4])
                if v is not None:
                    self.consts.setdefault((c[0], c[2]), v)
        self.handlers = self.table()

    def const(self, e):
        if e is None:
            return None
        if e[0] == 'lit' and isinstance(e[2], int):
            return e[2]
        if e[0] == 'bin' and e[2] in '+-*':
            a, b = self.const(e[3]), self.const(e[4])
            return None if a is None or b is None else eval('a %s b' % e[2])
        if e[0] == 'paren':
            return self.const(e[2])
        if e[0] == 'un' and e[2] == '-':
            a = self.const(e[3])
            return None if a is None else -a
        return None

    def table(self):
        st = [s for s in find(self.gen.body, 'struct') if tail(s[2].replace(' ', '')) == 'VmHandlers']
        if len(st) != 1:
            raise AnchorMissing('the handler table of ' + self.arch)
        env, cur = {}, None
        for s in self.gen.body[2]:
            if s[0] == 'local' and s[2][0] == 'pident':
                i = s[3]
                if i and i[0] == 'mcall' and i[3] == 'get_current_address':
                    cur = s[2][2]
                    env[cur] = []
                elif i and i[0] == 'mcall' and path(i[2]) == 'self' and i[3] != 'entry_raise':
                    env[s[2][2]] = [i]
                    cur = None
                elif cur:
                    env[cur].append(s)
            elif s[0] == 'local' and s[2][0] == 'ptuple':
                for p in s[2][2]:
                    if p[0] == 'pident':
                        env[p[2]] = [s[3]]
            elif cur and s[0] == 'semi':
                env[cur].append(s)
        out = {}
        for name, e in st[0][3]:
            out[name] = env.get(path(e)) if e[0] == 'path' else [e]
            if out[name] is None:
                raise AnchorMissing('the code of the handler %s of %s' % (name, self.arch))
        return out

    def facts(self, name):
        """(reads {(byte, width)}, passes_pc, runtime helpers)."""
        self.reads, self.pc, self.called, self.seen = set(), False, set(), set()
        self.walk(self.handlers[name], self.gen.file, {})
        return self.reads, self.pc, self.called - SIDE

    def walk(self, n, file, env):
        if not isinstance(n, list) or not n:
            return
        k = n[0]
        if k == 'if' and n[2][0] == 'path' and path(n[2]) in env or \
                k == 'if' and n[2][0] == 'un' and n[2][2] == '!' and path(n[2][3]) in env:
            neg = n[2][0] == 'un'
            v = env[path(n[2][3]) if neg else path(n[2])] != neg
            self.walk(n[3] if v else n[4], file, env)
            return
        if k == 'macro' and isinstance(n[1], int):
            self.asm(n[3] if isinstance(n[3], str) else '', file)
            return
        if k == 'path' and isinstance(n[1], int):
            self.name(n[2].replace(' ', ''))
            return
        if k == 'mcall' and isinstance(n[1], int):
            r = n[2]
            if path(r) == 'self' or r[0] == 'field' and r[3] == 'jit':
                self.enter(n[3], n[4], env)
        for x in n:
            if isinstance(x, list):
                self.walk(x, file, env)

    STOP = {'fetch_and_dispatch', 'a64_fetch_and_dispatch', 'entry_raise'}

    def enter(self, name, args, env):
        if name in self.STOP:
            return
        c = [g for g in self.t.by_name.get(name, ()) if g.file.startswith('codegen') and
             (self.arch in g.file or '/arch/' not in g.file) and g.body]
        for g in c:
            ps = [p for p in g.params if p[0] != 'self']
            e2 = {}
            for p, a in zip(ps, args):
                if a[0] == 'lit' and isinstance(a[2], bool):
                    e2[p[0]] = a[2]
                elif path(a) in env:
                    e2[p[0]] = env[path(a)]
            key = (g.file, g.full, tuple(sorted(e2.items())))
            if key not in self.seen:
                self.seen.add(key)
                self.walk(g.body, g.file, e2)
        if not c:
            self.macro(name)

    def macro(self, name):
        for f, line, mname, m in self.t.macros:
            if self.arch not in f:
                continue
            for tpl in re.findall(r'fn \[< ([^>]*) >\]', m[3]):
                rx = re.sub(r'\$ (\w+)', lambda x: '(?P<%s>\\w+?)' % x.group(1), tpl).replace(' ', '')
                b = re.match(rx + '$', name)
                if not b:
                    continue
                text = m[3]
                for var, val in b.groupdict().items():
                    text = text.replace('$ ' + var, val)
                text = re.sub(r'\[< ([^>]*) >\]', lambda x: x.group(1).replace(' ', ''), text)
                for w in re.findall(r'\b([a-z_0-9]+) as _', text):
                    self.name(w)
                for w in re.findall(r'self \. (\w+) \(', text):
                    self.enter(w, [], {})

    def name(self, p):
        q = tail(p)
        if '::' in p and 'runtime' in p.split('::') or q.endswith(('_values', '_value')):
            self.called.add(q)
        elif any(g.file.startswith('codegen/runtime') and not g.owner for g in self.t.by_name.get(q, ())):
            self.called.add(q)

    def asm(self, text, file):
        had = self.pc
        for p in re.findall(r'\(((?:\w+ :: )*\w+)(?: as [^)]*)?\)', text):
            self.name(p.replace(' ', ''))
        for p in re.findall(r'runtime :: (\w+)', text):
            self.called.add(p)
        self.fetches(text, file)
        fresh = {x for x in re.findall(r'\w+', text)} & self.called
        if fresh and fresh <= SIDE:
            self.pc = had                               # the address goes to a recorder only

    def fetches(self, text, file):
        text = re.sub(r'^ *& *(mut )? *[\w .]+? , ', '', text)
        base = 16                                       # x86 keeps the address of the next instruction
        for ins in text.split(';'):
            w = ins.split()
            if not w:
                continue
            while len(w) > 2 and w[1] == ':':
                w = w[2:]
            m = w[0]
            if self.arch == 'x86_64':
                if m == 'popq' and 'r13' in w:
                    base = 0
                    continue
                if m == 'addq' and w[1:2] == ['r13']:
                    base = 16
                    continue
                if m == 'movq' and w[1:2] == ['r13']:
                    return                              # another program counter from here on
                x = re.search(r'\[r13 ?([-+]) ?\(?(\w+)\)?\]', ins)
                if not x:
                    continue
                off = int(x.group(2)) if x.group(2).isdigit() else self.consts.get((file, x.group(2)))
                if off is None:
                    continue
                off = (off if x.group(1) == '+' else -off) + base
                if m == 'lea':
                    self.pc = self.pc or off == 0
                elif ins.index('[r13') > ins.index(',') if ',' in ins else True:
                    self.reads.add((off, WIDTH_X86.get(m, 0)))
            else:
                x = re.search(r'\[x \(PC \. 0\) ?(?:, # \((\w+)( as \w+)?\))?\]', ins)
                if not x:
                    if m == 'mov' and re.search(r', x \(PC \. 0\) *$', ins):
                        self.pc = True
                    continue
                o = x.group(1) or '0'
                off = int(o) if o.isdigit() else self.consts.get((file, o))
                if off is None or m.startswith('st'):
                    continue
                wd = WIDTH_A64.get(m) or (32 if m == 'ldr' and w[1].startswith('w') else 64 if m == 'ldr' else 0)
                self.reads.add((off, wd))


def interpreters(t, enc):
    f = t.fn('construct_vm')
    slots = {}
    bad = []
    for x in find(f.body, 'assign'):
        l, r = x[2], x[3]
        if l[0] == 'index' and l[2][0] == 'field' and l[2][3] == 'dispatch' and l[3][0] == 'lit' and r[0] == 'field':
            slots[l[3][2]] = (r[3], x[1])
    A = {a: Arch(t, a) for a in ARCHS}
    facts = {}
    first = {}
    for name, a, code, w1, w2, line in enc:
        first.setdefault(code, (name, a, w1, w2, line))
    emitted = set(first)
    n = operands = 0
    for code, (name, a, w1, w2, line) in sorted(first.items()):
        h = wanted(name, a)
        who = name + ('(%s)' % ', '.join('%s=%s' % (k.strip('#$'), x[-1]) for k, x in a.items()) if a else '')
        if h is None:
            continue
        n += 1
        if code not in slots:
            bad.append((f, f.line, 'unhandled|' + who, 'opcode %d of %s has no handler' % (code, who)))
            continue
        if slots[code][0] != h:
            bad.append((f, slots[code][1], 'handler|' + who, 'opcode %d of %s is handled by `%s`, not `%s`' %
                        (code, who, slots[code][0], h)))
            continue
        for arch in ARCHS:
            if (arch, h) not in facts:
                if h not in A[arch].handlers:
                    raise AnchorMissing('handler %s of %s' % (h, arch))
                facts[(arch, h)] = A[arch].facts(h)
            reads, pc, called = facts[(arch, h)]
            if pc or h in UNREAD:
                continue
            for base, w in ((0, w1), (8, w2)):
                for lo, width, o in w.parts:
                    if isinstance(o, tuple) and o[0] in ('int', 'opaque'):
                        continue
                    operands += 1
                    byte = base + lo // 8
                    hit = [r for r in reads if r[0] == byte and (r[1] == width
                                                               or r[1] > width and lone(w, lo, r[1]))]
                    if not hit:
                        bad.append((A[arch].gen, A[arch].gen.line, 'unread|%s|%s|%d' % (arch, h, byte),
                                    'the %s handler of %s does not read its operand %s (byte %d, %d bits)' %
                                    (arch, who, show(o), byte, width)))
    for h in sorted({h for _, h in facts}):
        c = [facts[(arch, h)][2] for arch in ARCHS]
        if c[0] != c[1]:
            bad.append((A[ARCHS[0]].gen, A[ARCHS[0]].gen.line, 'helpers|' + h,
                        'the handlers of %s call different helpers: %s on %s, %s on %s' %
                        (h, sorted(c[0] - c[1]), ARCHS[0], sorted(c[1] - c[0]), ARCHS[1])))
    groups = {arch: same(A[arch].handlers) for arch in ARCHS}
    for arch, other in (ARCHS, ARCHS[::-1]):
        for h, rep in sorted(groups[arch].items()):
            if rep != h and groups[other].get(h) != groups[other].get(rep) and (arch, rep, h) not in SHARED:
                bad.append((A[arch].gen, A[arch].gen.line, 'same|%s|%s|%s' % (arch, rep, h),
                            'one handler serves both %s and %s on %s, but not on %s' % (rep, h, arch, other)))
    for code in sorted(set(slots) - emitted):
        bad.append((f, slots[code][1], 'dead|%d' % code, 'opcode %d has a handler (`%s`) but is never emitted' %
                    (code, slots[code][0])))
    return f, n, operands, facts, bad


def same(handlers):
    """First table entry with the same code, per entry."""
    def strip(n):
        return tuple(strip(x) for i, x in enumerate(n) if not (i == 1 and isinstance(x, int))) if isinstance(n, list) else n
    first, out = {}, {}
    for h in sorted(handlers):
        out[h] = first.setdefault(strip(handlers[h]), h)
    return out


def lone(w, lo, width):
    """A wider read that covers no other operand (the rest of the word is zero)."""
    return not [p for p in w.parts if p[0] != lo and p[0] < lo + width and lo < p[0] + p[1]]


def calls_skip(t, enc):
    """Instructions followed by a cache word are exactly those the program counter skips two words for."""
    f = t.fn('next', 'bytecode.rs', 'BytecodePtr')
    E = Eval(t, {})
    m = [x for x in syntree.choices(f.body)]
    if len(m) != 1:
        raise AnchorMissing('BytecodePtr::next')
    arms = arms_of(t)[2]
    cached = {name for name, (arm, p) in arms.items() if any(c[3] == 'encode_call' for c in find(arm, 'mcall'))}
    bad, n = [], 0
    for name, a, code, w1, w2, line in enc:
        for arm in m[0][3]:
            if E.matches(arm[2], ('int', code)):
                step = [x[2] for x in find(arm[4], 'lit')]
                n += 1
                if step != [2 if name in cached else 1]:
                    bad.append((f, arm[1], 'step|' + name, 'the instruction after %s (opcode %d) is taken to be %s words on' %
                                (name, code, step)))
                break
    return n, bad
