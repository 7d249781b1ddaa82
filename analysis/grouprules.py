"""C15: every backend for scanning a group of tags gives the same answers.

One lane of the group stands for all.  Its eight bits are 0, 1, a named bit or unknown; the lane
holds the empty tag, the deleted tag, or a full tag (equal to the searched one, or first different
at bit k).  A second lane with eight arbitrary bits stands for every neighbour, so bits shifted or
carried across lanes come from it.  A backend is judged from its syntax tree, whatever the machine
the check runs on: the vector intrinsics are given by their lane-wise meaning.
"""
import json
import os
import re
import subprocess
import tempfile

import framework
from rawprim import band, bnot, bor, bxor, const, maj, var
from syntree import Tree, tail

BACKENDS = ('sse2', 'neon', 'lsx', 'generic')
DIR = 'hashbrown/src/control/'


class Undecided(Exception):
    pass


class Wrong(Exception):
    pass


def load():
    os.makedirs(framework.WORK, exist_ok=True)
    fd, out = tempfile.mkstemp(prefix='grp.', suffix='.json', dir=framework.WORK)
    os.close(fd)
    try:
        here = os.path.dirname(os.path.dirname(os.path.abspath(framework.__file__)))
        subprocess.run(['bash', here + '/tools/syn.sh', out, '%s/hashbrown/src/control' % framework.REPO], check=True)
        with open(out) as f:
            return Tree(json.load(f))
    finally:
        os.unlink(out)


# ------------------------------------------------------------ values
class Lane:
    """The same word seen at the judged lane (own) and at any other lane (other)."""

    def __init__(self, own, other, le=True):
        self.own, self.other, self.le = own, other, le

    def map(self, g):
        return Lane([g(b) for b in self.own], [g(b) for b in self.other], self.le)

    def zip(self, o, g):
        return Lane([g(a, b) for a, b in zip(self.own, o.own)], [g(a, b) for a, b in zip(self.other, o.other)], self.le and o.le)


class Compact:
    """A word with one bit per lane."""

    def __init__(self, own):
        self.own = own


class Tup:
    def __init__(self, name, v):
        self.name, self.v = name, v


def dup(bits):
    return Lane(list(bits), list(bits))


def eq(a, b):
    r = 1
    for x, y in zip(a, b):
        e = bnot(bxor(x, y))
        r = band(r, e)
        if r == 0:
            return 0
    return r


def nonneg(a):
    return bnot(a[7])


def iszero(a):
    return eq(a, const(0, 8))


def less(a, b):
    """Signed a < b; decided when the signs or one operand's being zero decide."""
    if a[7] in (0, 1) and b[7] in (0, 1) and a[7] != b[7]:
        return a[7]
    if all(x == 0 for x in b):
        return a[7]
    if all(x == 0 for x in a):
        return band(nonneg(b), bnot(iszero(b)))
    if all(x in (0, 1) for x in a + b):
        f = lambda v: sum(x << i for i, x in enumerate(v)) - 256 * v[7]
        return int(f(a) < f(b))
    if all(x == 1 for x in b):
        return band(a[7], bnot(eq(a, b)))
    return None


def unary(g):
    return lambda ev, x: Lane([g(ev.lane(x).own)] * 8, [g(ev.lane(x).other)] * 8)


def binary(g):
    return lambda ev, x, y: Lane([g(ev.lane(x).own, ev.lane(y).own)] * 8, [g(ev.lane(x).other, ev.lane(y).other)] * 8)


def bits2(g):
    return lambda ev, x, y: ev.lane(x).zip(ev.lane(y), g)


def ident(ev, x, *rest):
    return x


def lane0(ev, x, k=0):
    if k != 0:
        raise Wrong('the mask is taken from another part of the vector')
    return x


OR, AND, XOR = bits2(bor), bits2(band), bits2(bxor)
ANDN = bits2(lambda a, b: band(bnot(a), b))
BIC = bits2(lambda a, b: band(a, bnot(b)))
NOR = bits2(lambda a, b: bnot(bor(a, b)))
INTRINSICS = {
    '_mm_set1_epi8': lambda ev, x: dup(ev.byte(x)), '_mm_setzero_si128': lambda ev: dup(const(0, 8)),
    '_mm_cmpeq_epi8': binary(eq), '_mm_cmpgt_epi8': binary(lambda a, b: less(b, a)), '_mm_cmplt_epi8': binary(less),
    '_mm_or_si128': OR, '_mm_and_si128': AND, '_mm_xor_si128': XOR, '_mm_andnot_si128': ANDN,
    '_mm_movemask_epi8': lambda ev, x: Compact(ev.lane(x).own[7]),
    'vceq_u8': binary(eq), 'vceq_s8': binary(eq), 'vdup_n_u8': lambda ev, x: dup(ev.byte(x)), 'vdup_n_s8': lambda ev, x: dup(ev.byte(x)),
    'vmov_n_u8': lambda ev, x: dup(ev.byte(x)),
    'vget_lane_u64': lane0, 'vcltz_s8': unary(lambda a: a[7]), 'vcgez_s8': unary(nonneg), 'vceqz_u8': unary(iszero), 'vceqz_s8': unary(iszero),
    'vcgtz_s8': unary(lambda a: band(nonneg(a), bnot(iszero(a)))), 'vclezs8': unary(lambda a: bor(a[7], iszero(a))),
    'vclez_s8': unary(lambda a: bor(a[7], iszero(a))), 'vclt_s8': binary(less), 'vcgt_s8': binary(lambda a, b: less(b, a)),
    'vcge_s8': binary(lambda a, b: None if less(a, b) is None else bnot(less(a, b))),
    'vcle_s8': binary(lambda a, b: None if less(b, a) is None else bnot(less(b, a))),
    'vorr_u8': OR, 'vand_u8': AND, 'veor_u8': XOR, 'vbic_u8': BIC, 'vmvn_u8': lambda ev, x: ev.lane(x).map(bnot),
    'lsx_vseq_b': binary(eq), 'lsx_vreplgr2vr_b': lambda ev, x: dup(ev.byte(x)), 'lsx_vslt_b': binary(less),
    'lsx_vsle_b': binary(lambda a, b: None if less(b, a) is None else bnot(less(b, a))),
    'lsx_vmskltz_b': lambda ev, x: Compact(ev.lane(x).own[7]), 'lsx_vmskgez_b': lambda ev, x: Compact(bnot(ev.lane(x).own[7])),
    'lsx_vmsknz_b': lambda ev, x: Compact(bnot(iszero(ev.lane(x).own))),
    'lsx_vor_v': OR, 'lsx_vand_v': AND, 'lsx_vxor_v': XOR, 'lsx_vnor_v': NOR, 'lsx_vandn_v': ANDN,
    'transmute': ident, 'lsx_vpickve2gr_hu': lane0,
}
GENERIC_ARG = {'lsx_vpickve2gr_hu'}


class Eval:
    def __init__(self, t, backend, width):
        self.t, self.file, self.width, self.depth = t, 'group/%s.rs' % backend, width, 0
        self.backend = backend

    # ---------------- coercions
    def lane(self, v):
        if isinstance(v, Tup):
            v = v.v
        if isinstance(v, Lane):
            return v
        if isinstance(v, int):
            v &= (1 << 64) - 1
            b = [(v >> (8 * i)) & 0xff for i in range(self.width)]
            if len(set(b)) == 1:
                return dup(const(b[0], 8))
        raise Undecided('word that is not the same in every lane')

    def byte(self, v):
        if isinstance(v, Tup):
            v = v.v
        if isinstance(v, int):
            return const(v & 0xff, 8)
        if isinstance(v, list):
            return v
        raise Undecided('byte not known')

    # ---------------- functions
    def const(self, name):
        for f, line, n, ty, e, owner in self.t.consts:
            if n == name and (f == self.file or f == 'tag.rs' and owner == 'Tag'):
                return self.expr(e, {})
        raise Undecided('constant ' + name)

    def call(self, f, args):
        self.depth += 1
        if self.depth > 12:
            raise Undecided('too deep')
        env = {}
        for p, a in zip(f.params, args):
            env[re.sub(r'^(&|mut|\s)+', '', p[0])] = a
        try:
            return self.expr(f.body, env)
        finally:
            self.depth -= 1

    def own(self, name, owner=None):
        for f in self.t.by_name.get(name, ()):
            if f.file in (self.file, 'bitmask.rs', 'tag.rs') and (owner is None or f.owner == owner):
                return f
        return None

    # ---------------- expressions
    def block(self, stmts, env):
        env = dict(env)
        out = None
        for s in stmts:
            if s[0] == 'local':
                if s[2][0] == 'pwild':
                    continue
                if s[2][0] != 'pident' or s[3] is None:
                    raise Undecided('pattern')
                env[s[2][2]] = self.expr(s[3], env)
            elif s[0] == 'tail':
                out = self.expr(s[2], env)
            elif s[0] == 'semi':
                e = s[2]
                if e[0] == 'macro' and e[2].startswith('debug_assert'):
                    continue
                if e[0] == 'return':
                    return self.expr(e[2], env)
                if e[0] == 'assign' and e[2][0] == 'path':
                    env[e[2][2]] = self.expr(e[3], env)
                    continue
                if e[0] in ('lit', 'path', 'tuple'):
                    continue
                raise Undecided('statement ' + e[0])
            elif s[0] == 'item':
                continue
            else:
                raise Undecided('statement ' + s[0])
        return out

    def expr(self, e, env):
        k = e[0]
        if k in ('block', 'unsafe'):
            return self.block(e[2], env)
        if k == 'lit':
            if isinstance(e[2], int) and not isinstance(e[2], bool):
                return e[2]
            s = str(e[2]).replace('_', '')
            m = re.match(r'^(0x[0-9a-fA-F]+|0b[01]+|\d+)(u\d+|i\d+|usize)?$', s)
            if m:
                return int(m.group(1), 0)
            raise Undecided('literal')
        if k in ('paren', 'group', 'ref'):
            return self.expr(e[-1], env)
        if k == 'cast':
            return self.expr(e[2], env)
        if k == 'return':
            return self.expr(e[2], env)
        if k == 'path':
            n = e[2].replace(' ', '')
            if n in env:
                return env[n]
            if n in ('Tag::EMPTY', 'Tag::DELETED', 'Self::EMPTY', 'Self::DELETED'):
                return self.const(n.split('::')[1])
            if n in ('Group::WIDTH', 'Self::WIDTH'):
                return self.width
            if n.split('::')[-1].isupper() or n.split('::')[-1].startswith('BITMASK'):
                return self.const(n.split('::')[-1])
            raise Undecided('name ' + n)
        if k == 'field':
            v = self.expr(e[2], env)
            if isinstance(v, Tup):
                return v.v
            raise Undecided('field')
        if k == 'un':
            v = self.expr(e[3], env)
            if e[2] == '*':
                return v
            if e[2] == '!':
                return self.inv(v)
            raise Undecided('operator ' + e[2])
        if k == 'bin':
            return self.op(e[2], self.expr(e[3], env), self.expr(e[4], env))
        if k == 'repeat':
            return dup(self.byte(self.expr(e[2], env)))
        if k == 'call':
            return self.fcall(e, env)
        if k == 'mcall':
            return self.mcall(e, env)
        raise Undecided('expression ' + k)

    def inv(self, v):
        if isinstance(v, Lane):
            return v.map(bnot)
        if isinstance(v, Compact):
            return Compact(bnot(v.own))
        if isinstance(v, int):
            return ~v
        if isinstance(v, list):
            return [bnot(b) for b in v]
        raise Undecided('negation')

    def op(self, o, a, b):
        a, b = (x.v if isinstance(x, Tup) else x for x in (a, b))
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b, '<<': a << max(b, 0),
                        '>>': a >> max(b, 0)}[o]
            except KeyError:
                raise Undecided('operator ' + o)
        logic = {'&': band, '|': bor, '^': bxor}
        if isinstance(a, Compact) or isinstance(b, Compact):
            if o not in logic:
                raise Undecided('operator on a mask')
            one = []
            for x in (a, b):
                if isinstance(x, int):
                    if x & 0xffff not in (0, 0xffff):
                        raise Undecided('mask that is not the same in every lane')
                    x = Compact(x & 1)
                one.append(x.own)
            return Compact(logic[o](*one))
        if o in logic:
            return self.lane(a).zip(self.lane(b), logic[o])
        if o in ('<<', '>>') and isinstance(b, int) and 0 <= b < 8:
            a = self.lane(a)
            if o == '<<':
                sh = lambda x: a.other[8 - b:] + x[:8 - b]
            else:
                sh = lambda x: x[b:] + a.other[:b]
            if b == 0:
                return a
            # bits that come from another lane are those of an arbitrary one: not the same as this lane's
            own = sh(a.own)
            oth = sh([x for x in a.other])
            oth = [None if isinstance(x, tuple) and i in ((range(0, b)) if o == '<<' else range(8 - b, 8)) else x
                   for i, x in enumerate(oth)]
            return Lane(own, oth, a.le)
        if o == '+':
            return self.add(self.lane(a), self.lane(b), 0)
        if o == '-':
            return self.sub(self.lane(a), self.lane(b))
        raise Undecided('operator ' + o)

    def add(self, a, b, c0):
        def go(x, y, c):
            out = []
            for p, q in zip(x, y):
                out.append(bxor(bxor(p, q), c))
                c = maj(p, q, c)
            return out, c
        other, c = go(a.other, b.other, 0)
        if c == 0:
            return Lane(go(a.own, b.own, 0)[0], other, a.le and b.le)
        u = var(('carry',))
        return Lane(go(a.own, b.own, u)[0], go(a.other, b.other, None)[0], a.le and b.le)

    def sub(self, a, b):
        def go(x, y, c):
            out = []
            for p, q in zip(x, y):
                out.append(bxor(bxor(p, q), c))
                c = maj(bnot(p), q, c)
            return out, c
        other, c = go(a.other, b.other, 0)
        u = 0 if c == 0 else self.borrow
        return Lane(go(a.own, b.own, u)[0], go(a.other, b.other, None if c != 0 else 0)[0], a.le and b.le)

    borrow = var(('borrow',))

    def fcall(self, e, env):
        p = e[2][2].replace(' ', '') if e[2][0] == 'path' else ''
        m = re.match(r'^(.*?)::<(.*)>$', p)
        ga = None
        if m and not m.group(2).startswith('Self'):
            p, ga = m.group(1), m.group(2)
        n = tail(p)
        args = [self.expr(a, env) for a in e[3]]
        if n in ('BitMask', 'Group', 'Tag', 'Self'):
            return Tup(n if n != 'Self' else 'Group', args[0].v if isinstance(args[0], Tup) else args[0])
        if n == 'from_ne_bytes' or n == 'from_le_bytes' or n == 'from_be_bytes':
            return args[0]
        if n == 'lsx_vseqi_b':
            c = {'Tag::EMPTY.0': 'EMPTY', 'Tag::DELETED.0': 'DELETED'}
            g = re.sub(r'asi\d+|[{}() ]', '', ga or '')
            g = re.sub(r'asi\d+', '', g)
            if g in c:
                k = self.byte(self.const(c[g]))
            elif re.match(r'^-?\d+$', g):
                k = const(int(g) & 0xff, 8)
            else:
                raise Undecided('immediate ' + g)
            a = self.lane(args[0])
            return Lane([eq(a.own, k)] * 8, [eq(a.other, k)] * 8)
        if n in INTRINSICS:
            if n in GENERIC_ARG and ga is not None:
                args = args + [int(ga)]
            return INTRINSICS[n](self, *args)
        if n.startswith('vreinterpret_'):
            return args[0]
        f = self.own(n)
        if f is not None and f.body:
            return self.call(f, args)
        raise Undecided('function ' + n)

    def mcall(self, e, env):
        recv = self.expr(e[2], env)
        args = [self.expr(a, env) for a in e[4]]
        n = e[3]
        if n == 'to_le' and isinstance(recv, Lane):
            return Lane(recv.own, recv.other, True)
        if n in ('wrapping_sub',):
            return self.op('-', recv, args[0])
        if n in ('wrapping_add',):
            return self.op('+', recv, args[0])
        if n in ('not',):
            return self.inv(recv)
        f = self.own(n, recv.name if isinstance(recv, Tup) else None)
        if f is not None and f.body:
            return self.call(f, [recv] + args)
        raise Undecided('method ' + n)


# ------------------------------------------------------------ judging
def cases():
    t = [var(('t', i)) for i in range(7)] + [0]
    full = [var(('b', i)) for i in range(7)] + [0]
    c = {'empty': const(0xff, 8), 'deleted': const(0x80, 8), 'full': full}
    d = {'equal': t, 'empty': c['empty'], 'deleted': c['deleted']}
    for k in range(7):
        d['differs at bit %d' % k] = t[:k] + [bnot(t[k])] + full[k + 1:]
    return t, c, d


def other():
    return [var(('o', i)) for i in range(8)]


def judge(t, out):
    tag, plain, search = cases()
    consts = {}
    for f, line, n, ty, e, owner in t.consts:
        if f == 'tag.rs' and owner == 'Tag':
            consts[n] = (line, e)
    n = {'functions': 0, 'cases': 0, 'undecided': []}
    for b in BACKENDS:
        file = 'group/%s.rs' % b
        fns = {f.name: f for f in t.fns if f.file == file and f.owner == 'Group'}
        width = 16 if b in ('sse2', 'lsx') else 8
        ev = Eval(t, b, width)
        for c, want in (('EMPTY', 0xff), ('DELETED', 0x80)):
            if ev.byte(ev.const(c)) != const(want, 8):
                raise framework.AnchorMissing('value of the %s tag' % c)
        stride = ev.const('BITMASK_STRIDE')
        iters = ev.const('BITMASK_ITER_MASK')
        for c in ('BITMASK_MASK', 'BITMASK_ITER_MASK'):
            v = ev.const(c)
            n['cases'] += 1
            if isinstance(v, int):
                w = [(v >> (stride * i)) & ((1 << stride) - 1) for i in range(width)]
                if len(set(w)) != 1:
                    out.append(('%s|%s' % (b, c), fns['match_full'], 'the mask constant %s treats slots differently by position' % c))

        def bad(fn, msg):
            f = fns[fn]
            out.append(('%s|%s' % (b, fn), f, msg))

        def mask(v):
            """1, 0 or None: is the slot reported; None when it depends on more."""
            if not isinstance(v, Tup) or v.name != 'BitMask':
                raise Undecided('no mask')
            v = v.v
            if isinstance(v, Compact):
                if stride != 1 or iters & 0xffff != 0xffff:
                    return 'form'
                return v.own
            v = ev.lane(v)
            if stride != 8:
                return 'form'
            if not v.le:
                return 'order'
            it = ev.lane(iters).own
            sel = [band(x, y) for x, y in zip(v.own, it)]
            live = [x for x in sel if x != 0]
            if all(x == 0 for x in v.own):
                return 0
            if len(live) == 1:
                # all set bits of the element go together with the counted one
                if all(x in (0, live[0]) for x in v.own):
                    return live[0]
                return None
            return 'many' if live and all(x == 1 for x in live) else None if live else 'lost'

        MSG = {'form': 'the mask has another form than the constants of the backend say',
               'order': 'the mask is not brought into the order of the slots', 'many': 'one slot is reported more than once',
               'lost': 'a slot is reported by a bit that iteration drops'}

        def run(fn, cs, want, args, val):
            if fn not in fns:
                raise framework.AnchorMissing('%s of %s' % (fn, b))
            n['functions'] += 1
            for name, lane in cs.items():
                n['cases'] += 1
                le = b != 'generic'
                try:
                    r = val(ev.call(fns[fn], [Tup('Group', Lane(lane, other(), le))] + args))
                except Wrong as e:
                    return bad(fn, str(e))
                except (Undecided, IndexError, KeyError, AttributeError, TypeError) as e:
                    n['undecided'].append('%s %s: %s' % (b, fn, e))
                    return
                w = want(name)
                if isinstance(r, str):
                    return bad(fn, MSG[r])
                if r != w:
                    return bad(fn, '%s slot: %s' % (name, 'reported' if w == 0 else 'not reported' if w == 1 else 'converted wrongly')
                               if r in (0, 1) or isinstance(w, list) else '%s slot: the answer depends on more than its tag' % name)

        run('match_empty', plain, lambda k: int(k == 'empty'), [], mask)
        run('match_empty_or_deleted', plain, lambda k: int(k != 'full'), [], mask)
        run('match_full', plain, lambda k: int(k == 'full'), [], mask)
        if b == 'generic':
            # other full tags may be reported above a match (the borrow), never without one
            ev.borrow = var(('borrow',))
            run('match_tag', {k: search[k] for k in ('equal', 'empty', 'deleted')}, lambda k: int(k == 'equal'), [Tup('Tag', tag)], mask)
            ev.borrow = 0
            run('match_tag', search, lambda k: int(k == 'equal'), [Tup('Tag', tag)], mask)
        else:
            run('match_tag', search, lambda k: int(k == 'equal'), [Tup('Tag', tag)], mask)
        conv = {'empty': const(0xff, 8), 'deleted': const(0xff, 8), 'full': const(0x80, 8)}
        run('convert_special_to_empty_and_full_to_deleted', plain, lambda k: conv[k], [], lambda v: ev.lane(v).own)
        moves(t, ev, b, fns, bad, n)
        counts(t, ev, b, stride, iters, width, out, n)
    return n


LOADS = {'sse2': ({'_mm_loadu_si128', '_mm_lddqu_si128'}, {'_mm_load_si128', '_mm_loadu_si128'}, {'_mm_store_si128', '_mm_storeu_si128'}),
         'neon': ({'vld1_u8'}, {'vld1_u8'}, {'vst1_u8'}),
         'lsx': ({'lsx_vld'}, {'lsx_vld'}, {'lsx_vst'}),
         'generic': ({'read_unaligned'}, {'read', 'read_unaligned'}, {'write', 'write_unaligned'})}


def moves(t, ev, b, fns, bad, n):
    from syntree import find
    local = {f.name: f for f in t.fns if f.file == fns['load'].file}
    local.update(fns)
    for fn, ok in zip(('load', 'load_aligned', 'store_aligned'), LOADS[b]):
        n['functions'] += 1
        calls, todo, seen = [], [fn], set()
        while todo:                       # local helpers are read in place of their call
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            for c in find(local[g].body, 'call'):
                if c[2][0] == 'path':
                    name = tail(c[2][2].replace(' ', ''))
                    if name in local:
                        todo.append(name)
                    elif name not in ('Group', 'Self', 'align_of'):
                        calls.append(c)
        names = {tail(c[2][2].replace(' ', '')) for c in calls}
        mem = [x for x in names if re.search(r'load|lddqu|vld|vst|store|read|write|copy', x)]
        if not mem:
            n['undecided'].append('%s %s: no access found' % (b, fn))
        for x in mem:
            if x not in ok:
                bad(fn, 'the group is moved by an access that does not fit the function (%s)' % x)
        for c in calls:
            if tail(c[2][2].replace(' ', '')) in ok:
                if '<' in c[2][2] and not re.search(r'<\s*0\s*>', c[2][2]):
                    bad(fn, 'the group is moved at an offset')
                if any(list(find(a, 'mcall')) and any(m[3] in ('add', 'sub', 'offset', 'wrapping_add', 'wrapping_sub') for m in find(a, 'mcall'))
                       for a in c[3]):
                    bad(fn, 'the group is moved at an offset')
    f = fns['static_empty']
    n['functions'] += 1
    tags = [r for i in find(f.body, 'item') for r in find(i[2], 'repeat')] + list(find(f.body, 'repeat'))
    if not tags:
        n['undecided'].append('%s static_empty: no tags found' % b)
    for r in tags:
        try:
            if ev.byte(ev.expr(r[2], {})) != const(0xff, 8):
                bad('static_empty', 'the tags of the table without slots are not all empty')
        except Undecided as e:
            n['undecided'].append('%s static_empty: %s' % (b, e))


# ------------------------------------------------------------ counting in masks
class Word:
    """Mask whose lowest (or highest) reported slot is `k`; bits within an element are pat."""

    def __init__(self, k, lo, hi, stride, lanes, swapped=False):
        self.k, self.lo, self.hi, self.stride, self.lanes, self.swapped = k, lo, hi, stride, lanes, swapped


def counts(t, ev, b, stride, iters, lanes, out, n):
    pat = (0, 0) if stride == 1 else ((7, 7) if b == 'generic' else (0, 7))
    fs = {f.name: f for f in t.fns if f.file == 'bitmask.rs' and f.owner == 'BitMask'}

    def go(e, env, arm):
        k = e[0]
        if k in ('block', 'unsafe'):
            env = dict(env)
            v = None
            for s in e[2]:
                if s[0] == 'local' and s[2][0] == 'pident':
                    env[s[2][2]] = go(s[3], env, arm)
                elif s[0] == 'tail' or s[0] == 'semi' and s[2][0] == 'return':
                    v = go(s[2] if s[0] == 'tail' else s[2][2], env, arm)
                elif s[0] == 'semi' and s[2][0] in ('lit', 'macro', 'tuple', 'path'):
                    continue
                else:
                    raise Undecided('statement')
            return v
        if k in ('paren', 'cast'):
            return go(e[2], env, arm)
        if k == 'lit' and isinstance(e[2], int):
            return e[2]
        if k == 'path':
            p = e[2].replace(' ', '')
            return env[p] if p in env else ev.const(p.split('::')[-1])
        if k == 'field':
            return go(e[2], env, arm)
        if k == 'macro' and e[2] == 'cfg':
            return arm
        if k == 'if':
            c = go(e[2], env, arm)
            if c is True or c == 1:
                return go(e[3], env, arm)
            if c is False or c == 0:
                return go(e[4], env, arm)
            raise Undecided('condition')
        if k == 'un' and e[2] == '!':
            v = go(e[3], env, arm)
            if isinstance(v, bool):
                return not v
            raise Undecided('negation')
        if k == 'bin':
            if e[2] in ('&&', '||'):
                x = go(e[3], env, arm)
                return (go(e[4], env, arm) if x else x) if e[2] == '&&' else (x or go(e[4], env, arm))
            x, y = go(e[3], env, arm), go(e[4], env, arm)
            if isinstance(x, tuple) and isinstance(y, int):
                if e[2] == '/' and y > 0:
                    return (x[0] // y, x[1] // y)
                if e[2] == '>>' and y >= 0:
                    return (x[0] >> y, x[1] >> y)
                if e[2] in '+-':
                    return (x[0] + y, x[1] + y) if e[2] == '+' else (x[0] - y, x[1] - y)
            if isinstance(x, int) and isinstance(y, int):
                return {'%': lambda: x % y, '==': lambda: x == y, '!=': lambda: x != y, '/': lambda: x // y, '*': lambda: x * y,
                        '<': lambda: x < y, '>': lambda: x > y, '>=': lambda: x >= y, '<=': lambda: x <= y, '+': lambda: x + y}[e[2]]()
            raise Undecided('operator')
        if k == 'mcall':
            v = go(e[2], env, arm)
            if e[3] == 'get':
                return v
            if e[3] == 'swap_bytes' and isinstance(v, Word):
                return Word(v.k, v.lo, v.hi, v.stride, v.lanes, not v.swapped)
            if e[3] in ('trailing_zeros', 'leading_zeros') and isinstance(v, Word):
                s = v.stride
                if v.swapped and s != 8:
                    raise Undecided('bytes swapped')
                if v.k == 'none':
                    return (v.lanes * s, v.lanes * s)
                name, i = v.k
                if v.swapped:
                    if e[3] == 'leading_zeros' and name == 'lowest':
                        return (s * i + (s - 1 - v.hi), s * i + (s - 1 - v.lo))
                    if e[3] == 'trailing_zeros' and name == 'highest':
                        return (s * (v.lanes - 1 - i) + v.lo, s * (v.lanes - 1 - i) + v.hi)
                else:
                    if e[3] == 'trailing_zeros' and name == 'lowest':
                        return (s * i + v.lo, s * i + v.hi)
                    if e[3] == 'leading_zeros' and name == 'highest':
                        return (s * (v.lanes - 1 - i) + (s - 1 - v.hi), s * (v.lanes - 1 - i) + (s - 1 - v.lo))
                return (0, v.lanes * s)
            raise Undecided('method ' + e[3])
        if k == 'call':
            p = e[2][2].replace(' ', '')
            if tail(p) in ('new_unchecked',):
                return go(e[3][0], env, arm)
            raise Undecided('function ' + p)
        raise Undecided('expression ' + k)

    for fn, side in (('trailing_zeros', 'lowest'), ('nonzero_trailing_zeros', 'lowest'), ('leading_zeros', 'highest')):
        if fn not in fs:
            raise framework.AnchorMissing(fn + ' of the masks')
        f = fs[fn]
        n['functions'] += 1
        name = re.sub(r'^(&|mut|\s)+', '', f.params[0][0])
        for arm in ((False, True) if b == 'generic' else (False,)):
            for i in ['none'] * (fn != 'nonzero_trailing_zeros') + list(range(lanes)):
                n['cases'] += 1
                w = Word('none' if i == 'none' else (side, i), pat[0], pat[1], stride, lanes)
                try:
                    r = go(f.body, {name: w}, arm)
                except (Undecided, KeyError, IndexError) as e:
                    n['undecided'].append('%s %s: %s' % (b, fn, e))
                    break
                want = lanes if i == 'none' else i if side == 'lowest' else lanes - 1 - i
                if r != (want, want):
                    key = ('mask|%s|%s' % (b, fn), f, 'the %s slot %s of a mask of %s is answered as %s' % (side, i, b, r))
                    if key[0] not in [o[0] for o in out]:
                        out.append(key)
    # inversion and iteration with the constants of this backend
    f = fs['invert']
    n['functions'] += 1
    for v, want in ((1, 0), (0, 1)):
        n['cases'] += 1
        if stride == 1:
            x = Compact(v)
        else:
            x = dup([0] * 7 + [v]) if b == 'generic' else dup([v] * 8)
        try:
            r = ev.call(f, [Tup('BitMask', x)]).v
        except (Undecided, AttributeError) as e:
            n['undecided'].append('%s invert: %s' % (b, e))
            break
        got = [r.own] if isinstance(r, Compact) else r.own
        if (want == 0 and any(z != 0 for z in got)) or (want == 1 and all(z == 0 for z in got)):
            out.append(('mask|%s|invert' % b, f, 'a slot that is %sreported stays so in the inverted mask of %s' % ('' if v else 'not ', b)))
            break


def c15():
    t = load()
    out = []
    n = judge(t, out)
    return n, out
