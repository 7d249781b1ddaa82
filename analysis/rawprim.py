"""The tag, group and bit-mask primitives that the table analyses take as given.

Words are vectors of symbolic bits (0, 1, a named bit or its negation).  Group
functions are lane-wise: one lane stands for all, holding the empty tag, the deleted
tag or any full tag.  Bit-mask functions are judged per position of the lowest (or
highest) set bit with every other bit arbitrary.  The constants are the program's own.
"""
import re
import models
from terms import *
from absint import Undecided, Interp, State, strip_generics

G = 'control::group::sse2::Group::'
B = 'control::bitmask::BitMask::'
T = 'control::tag::Tag::'
X86 = ('std::arch::x86_64::', 'core::arch::x86_64::', 'std::arch::x86::', 'core::arch::x86::')


class Out:
    def __init__(self):
        self.viol, self.undecided, self.done, self.cases = [], [], {}, 0

    def bad(self, fn, msg, f):
        k = (fn, msg, '%s:%d' % (f['file'], f['line']) if f else '')
        if k not in self.viol:
            self.viol.append(k)


# ---------------------------------------------------------------- bits
def bnot(b):
    if b in (0, 1):
        return 1 - b
    if b is None:
        return None
    return ('v', b[1], not b[2])


def var(n):
    return ('v', n, False)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a is None or b is None:
        return None
    if a == b:
        return a
    if a == bnot(b):
        return 0
    return None


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if a in (0, 1):
        return bnot(b) if a else b
    if b in (0, 1):
        return bnot(a) if b else a
    if a is None or b is None:
        return None
    if a == b:
        return 0
    if a == bnot(b):
        return 1
    return None


def maj(a, b, c):
    for x, y, z in ((a, b, c), (a, c, b), (b, c, a)):
        if x in (0, 1) and x == y:
            return x
        if x in (0, 1) and y in (0, 1):
            return z
        if x is not None and x == y:
            return x
        if x is not None and y is not None and x == bnot(y):
            return z
    return None


def const(v, w):
    return [(v >> i) & 1 for i in range(w)]


def fit(b, w):
    return (b + [0] * w)[:w]


def addb(a, b, c=0):
    out = []
    for x, y in zip(a, b):
        out.append(bxor(bxor(x, y), c))
        c = maj(x, y, c)
    return out


def value(bits):
    if None in bits:
        raise Undecided('bits not known')
    if all(b in (0, 1) for b in bits):
        return sum(b << i for i, b in enumerate(bits))
    return None


def iszero(bits):
    if any(b == 1 for b in bits):
        return 0
    live = [b for b in bits if b != 0]
    if not live:
        return 1
    if len(live) == 1:
        return bnot(live[0])
    return None


class Eval:
    """Evaluates a term under an assignment of bit vectors; `lane`: mask words are one bit per lane."""

    def __init__(self, env, width, lane=False):
        self.env, self.w, self.lane = env, width, lane

    def bits(self, t, w=None):
        w = w or self.w
        if t in self.env:
            return fit(self.env[t], w)
        if is_int(t):
            if self.lane == 'mask':
                if t & 0xffff not in (0, 0xffff):
                    raise Undecided('mask constant that is not the same for all lanes')
                return [t & 1]
            return const(t, w)
        if not isinstance(t, tuple) or not t:
            raise Undecided('bits of ' + str(t)[:60])
        k = t[0]
        if k == 'agg':
            return self.bits(t[4][-1][1], w)
        if k == 'ovr' and dict(t[2]).get('0') is not None:
            return self.bits(dict(t[2])['0'], w)
        if k == 'lin':
            acc = const(t[1], w)
            for x, c in t[2]:
                if c not in (1, -1) or self.lane == 'mask':
                    raise Undecided('scaled sum of bits')
                b = self.bits(x, w)
                acc = addb(acc, b) if c == 1 else addb(acc, [bnot(y) for y in b], 1)
            return acc
        if k in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}[k]
            return [f(x, y) for x, y in zip(self.bits(t[1], w), self.bits(t[2], w))]
        if k == 'not!':
            return [bnot(x) for x in self.bits(t[1], w)]
        if k in ('eq0', 'not', 'le', 'bool'):
            return fit([self.truth(t)], w)
        if k == 'Div' and is_int(t[2]) and t[2] > 0 and t[2] & (t[2] - 1) == 0:
            if t[2] == 1:
                return self.bits(t[1], w)
            return fit(self.bits(t[1], 64)[t[2].bit_length() - 1:], w)
        if k in ('Shr', 'Shl'):
            n = value(self.bits(t[2], 16))
            if n is None:
                raise Undecided('shift by an unknown amount')
            b = self.bits(t[1], 64 if k == 'Shr' else w)
            return fit(b[n:] if k == 'Shr' else [0] * n + b, w)
        if k == 'mul' and is_int(t[1]) and t[1] & (t[1] - 1) == 0:
            return fit([0] * (t[1].bit_length() - 1) + self.bits(t[2], w), w)
        if k == 'cast':
            cw = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32}.get(t[1], 64)
            if self.lane == 'mask':
                return self.bits(t[2], w)
            return fit(self.bits(t[2], min(cw, 64)), w)
        if k == 'call':
            return self.call(t, w)
        if k == 'fld' and t[2] == '0':
            return self.bits(t[1], w)
        if k == 'as':
            return self.bits(t[1], w)
        raise Undecided('bits of ' + str(t)[:60])

    def call(self, t, w):
        name, args = t[1].rsplit('::', 1)[-1], t[2]
        if t[1].startswith(X86):
            ev = Eval(self.env, 8, True)
            if name == '_mm_movemask_epi8':
                return [ev.bits(args[0], 8)[7]]
            if name == '_mm_set1_epi8':
                return ev.bits(args[0], 8)
            if name == '_mm_setzero_si128':
                return [0] * 8
            a = [ev.bits(x, 8) for x in args]
            if name == '_mm_cmpeq_epi8':
                return [equal(a[0], a[1])] * 8
            if name in ('_mm_cmpgt_epi8', '_mm_cmplt_epi8'):
                x, y = a if 'gt' in name else reversed(a)
                return [greater(x, y)] * 8
            if name == '_mm_or_si128':
                return [bor(x, y) for x, y in zip(*a)]
            if name == '_mm_and_si128':
                return [band(x, y) for x, y in zip(*a)]
            if name == '_mm_xor_si128':
                return [bxor(x, y) for x, y in zip(*a)]
            if name == '_mm_andnot_si128':
                return [band(bnot(x), y) for x, y in zip(*a)]
            raise Undecided(name)
        if name in ('trailing_zeros', 'leading_zeros') and ('num::' in t[1]):
            m = re.search(r'<impl [ui](\d+)>', t[1])
            b = self.bits(args[0], int(m.group(1)) if m else 16)
            if name == 'leading_zeros':
                b = b[::-1]
            n = 0
            for x in b:
                if x == 1:
                    return const(n, w)
                if x is None:
                    raise Undecided(name)
                if x != 0:
                    return [var(('count', name))] * w
                n += 1
            return const(len(b), w)
        if name in ('new', 'get', 'new_unchecked', 'from', 'into') and 'NonZero' in t[1]:
            return self.bits(args[0], w)
        if name == 'wrapping_sub':
            return addb(self.bits(args[0], w), [bnot(x) for x in self.bits(args[1], w)], 1)
        if name == 'wrapping_add':
            return addb(self.bits(args[0], w), self.bits(args[1], w))
        if name == 'wrapping_neg':
            return addb([0] * w, [bnot(x) for x in self.bits(args[0], w)], 1)
        if name == 'swap_bytes':
            raise Undecided(name)
        raise Undecided(t[1])

    def truth(self, c):
        if c == TRUE or c == FALSE:
            return c[1]
        if c[0] == 'not':
            return bnot(self.truth(c[1]))
        if c[0] == 'eq0':
            if isinstance(c[1], tuple) and c[1][0] == 'lin' and c[1][1] == 0 and len(c[1][2]) == 2 and \
                    sorted(x[1] for x in c[1][2]) == [-1, 1]:
                return equal(self.bits(c[1][2][0][0]), self.bits(c[1][2][1][0]))
            return iszero(self.bits(c[1]))
        if c[0] == 'le':
            return self.below(c[1])
        if isinstance(c, tuple) and c[0] in ('BitAnd', 'BitOr', 'BitXor', 'cast', 'fld'):
            return self.bits(c)[0]
        raise Undecided('condition ' + str(c)[:60])

    def below(self, t):
        """lin <= 0 for fully known values."""
        if is_int(t):
            return int(t <= 0)
        k, parts = (t[1], t[2]) if t[0] == 'lin' else (0, ((t, 1),))
        lo = hi = k
        for x, c in parts:
            b = self.bits(x)
            mn = sum((1 if y == 1 else 0) << i for i, y in enumerate(b))
            mx = sum((0 if y == 0 else 1) << i for i, y in enumerate(b))
            lo += c * (mn if c > 0 else mx)
            hi += c * (mx if c > 0 else mn)
        return 1 if hi <= 0 else (0 if lo > 0 else None)


def equal(a, b):
    """Bit telling whether two vectors are the same."""
    x = [bxor(p, q) for p, q in zip(a, b)]
    if any(y == 1 for y in x):
        return 0
    if all(y == 0 for y in x):
        return 1
    names = tuple(sorted([repr(a), repr(b)]))
    return ('v', ('same',) + names, False)


def greater(a, b):
    """Signed a > b when the signs or all bits decide."""
    va, vb = value(a), value(b)
    if va is not None and vb is not None:
        s = lambda v: v - 256 if v & 128 else v
        return int(s(va) > s(vb))
    if a[7] in (0, 1) and b[7] in (0, 1) and a[7] != b[7]:
        return int(b[7])
    if vb == 255 and a[7] == 0:
        return 1
    if va == 0 and b[7] == 0:
        return 0
    return None


# ---------------------------------------------------------------- driver
def possible(s, ev):
    """Can this exit belong to the case `ev` describes?"""
    for t, k in s.variants.items():
        if isinstance(t, tuple) and t[0] == 'call' and 'NonZero' in t[1] and t[1].endswith('::new'):
            z = iszero(ev.bits(t[2][0]))
            if z is not None and (z == 1) != (k == 0):
                return False
    for x in getattr(s.ord, 'le', ()):
        c = ('lin', x[0], tuple(x[1].items())) if isinstance(x, tuple) and len(x) == 2 else x
        if ev.below(c) == 0:
            return False
    for x in getattr(s.ord, 'ne', ()):
        if iszero(ev.bits(x)) == 1:
            return False
    return True


class Prim:
    def __init__(self, prog, O):
        self.prog, self.O = prog, O
        self.fns = {strip_generics(f['path']): f for f in prog.fns.values()}
        self.stores = []

    def interp(self):
        rec = lambda name: (lambda I, st, a, c: self.record(st, name, a))
        M = dict(models.M)
        for x in X86:
            for n in ('_mm_store_si128', '_mm_storeu_si128'):
                M[x + n] = rec('store')
        M['std::ptr::mut_ptr::<impl *mut T>::write_bytes'] = M['std::ptr::write_bytes'] = \
            M['std::intrinsics::write_bytes'] = rec('fill')
        for q in ('const', 'mut'):
            M['std::ptr::%s_ptr::<impl *%s T>::cast' % (q, q)] = lambda I, st, a, c: [(st, a[0])]
        M['core::slice::<impl [T]>::as_mut_ptr'] = lambda I, st, a, c: [(st, ('ptr', a[0]))]
        M['control::tag::TagSliceExt::fill_tag'] = rec('filltag')
        return Interp(self.prog, M, lambda f: False, 5000)

    def record(self, st, name, a):
        s = st.copy()
        s.trace.append((name, tuple(a)))
        return [(s, UNIT)]

    def run(self, path):
        f = self.fns.get(path)
        if f is None:
            return None, None, []
        I = self.interp()
        st, args = State(), []
        for i in range(f['argc']):
            x = ('in', i)
            if f['crate'].ty(f['locals'][i + 1][0])['k'] == 'ref':
                st.mem[('O', i)] = x
                x = ('ref', ('O', i), ())
            args.append(x)
        rs = [(s, v) for s, v in I.call_fn(st, f, args, 0) if s.ord.feasible() is not False]
        self.O.done[path] = len(rs)
        return f, I, rs

    def const(self, path):
        f, I, rs = self.run(path)
        if f is None or len(rs) != 1:
            return None
        return value(Eval({}, 8).bits(rs[0][1]))


def opt(v):
    if is_agg(v, 'std::option::Option'):
        return ('none',) if v[2] == 0 else ('some', v[4][0][1])
    return None


def truth_of(ev, s, v):
    return ev.truth(v)


def judge(P, path, cases, read, want_of):
    """For each case (name, env, lane) the answer `read(ev, s, v)` of every possible exit equals want_of(name)."""
    f, I, rs = P.run(path)
    if f is None:
        P.O.undecided.append((path, 'absent'))
        return
    for name, ev in cases:
        P.O.cases += 1
        n = 0
        for s, v in rs:
            try:
                if not possible(s, ev):
                    continue
                n += 1
                got = read(ev, s, v)
            except Undecided as e:
                P.O.undecided.append((path, str(e)))
                return
            if isinstance(got, list) and None in got or got is None and read is truth_of:
                P.O.undecided.append((path, 'bits not known'))
                return
            if got != want_of(name):
                P.O.bad(path, 'wrong for %s' % describe(name), f)
                return
        if not n:
            P.O.bad(path, 'no answer for %s' % describe(name), f)


def describe(n):
    if n in ('E', 'D', 'F'):
        return {'E': 'an empty slot', 'D': 'a deleted slot', 'F': 'a full slot'}[n]
    if n == 'zero':
        return 'an empty mask'
    if isinstance(n, int):
        return 'a mask whose decisive bit is %d' % n
    return str(n)


def prims(prog):
    O = Out()
    P = Prim(prog, O)
    E, D = P.const(T + 'EMPTY'), P.const(T + 'DELETED')
    if E is None or D is None:
        O.undecided.append(('tags', 'absent'))
        return O
    if E == D or not E & 128 or not D & 128:
        O.bad(T + 'EMPTY', 'the two special tags are not different tags outside the full ones', P.fns[T + 'EMPTY'])
        return O
    full = [var(('b', i)) for i in range(7)] + [0]
    classes = {'E': const(E, 8), 'D': const(D, 8), 'F': full}
    # tags
    f, I, rs = P.run(T + 'full')
    if f is not None:
        h = [var(('h', i)) for i in range(64)]
        for s, v in rs:
            O.cases += 1
            try:
                b = Eval({('in', 0): h}, 64).bits(v, 8)
            except Undecided as e:
                O.undecided.append((T + 'full', str(e)))
                break
            if b[7] != 0:
                O.bad(T + 'full', 'the tag of a full slot can be one of the special tags', f)
            if sum(isinstance(x, tuple) for x in b) < 5:
                O.bad(T + 'full', 'the tag of a full slot hardly depends on the hash', f)
    tagcases = [(n, Eval({('fld', ('in', 0), '0'): b, ('in', 0): b}, 8)) for n, b in classes.items()]
    truth = truth_of
    judge(P, T + 'is_full', tagcases, truth, lambda n: int(n == 'F'))
    judge(P, T + 'is_special', tagcases, truth, lambda n: int(n != 'F'))
    judge(P, T + 'special_is_empty', tagcases[:2], truth, lambda n: int(n == 'E'))
    # groups
    lanes = [(n, Eval({('fld', ('in', 0), '0'): b, ('in', 0): b}, 1, 'mask')) for n, b in classes.items()]
    bit = lambda ev, s, v: ev.bits(v, 1)
    for fn, want in (('match_empty', 'E'), ('match_empty_or_deleted', 'ED'), ('match_full', 'F')):
        judge(P, G + fn, lanes, bit, lambda n, want=want: [int(n in want)])
    t = [var(('t', i)) for i in range(8)]
    b = [var(('b', i)) for i in range(8)]
    env = {('fld', ('in', 0), '0'): b, ('in', 0): b, ('fld', ('in', 1), '0'): t, ('in', 1): t}
    judge(P, G + 'match_tag', [('any slot', Eval(env, 1, 'mask'))], bit, lambda n: [equal(b, t)])
    conv = {'E': classes['E'], 'D': classes['E'], 'F': classes['D']}
    judge(P, G + 'convert_special_to_empty_and_full_to_deleted',
          [(n, Eval({('fld', ('in', 0), '0'): x, ('in', 0): x}, 8, True)) for n, x in classes.items()],
          lambda ev, s, v: ev.bits(v, 8), lambda n: conv[n])
    loads(P, O, E)
    # masks
    low, high = [('zero', [0] * 16)], [('zero', [0] * 16)]
    for k in range(16):
        low.append((k, [0] * k + [1] + [var(('m', i)) for i in range(k + 1, 16)]))
        high.append((k, [var(('m', i)) for i in range(k)] + [1] + [0] * (15 - k)))
    word = lambda cs: [(n, Eval({('fld', ('in', 0), '0'): x, ('in', 0): x, ('fld', ('fld', ('in', 0), '0'), '0'): x}, 16))
                       for n, x in cs]
    num = lambda ev, s, v: value(ev.bits(v, 16))
    judge(P, B + 'any_bit_set', word(low), truth, lambda n: int(n != 'zero'))
    judge(P, B + 'trailing_zeros', word(low), num, lambda n: 16 if n == 'zero' else n)
    judge(P, B + 'leading_zeros', word(high), num, lambda n: 16 if n == 'zero' else 15 - n)

    def option(ev, s, v):
        o = opt(v)
        if o is None:
            raise Undecided('unknown answer')
        return None if o[0] == 'none' else value(ev.bits(o[1], 16))
    judge(P, B + 'lowest_set_bit', word(low), option, lambda n: None if n == 'zero' else n)
    every = [var(('m', i)) for i in range(16)]
    judge(P, B + 'invert', word([('any mask', every)]), lambda ev, s, v: ev.bits(v, 16),
          lambda n: [bnot(x) for x in every])
    judge(P, '<control::bitmask::BitMask as std::iter::IntoIterator>::into_iter', word([('any mask', every)]),
          lambda ev, s, v: ev.bits(v, 16), lambda n: every)

    def step(ev, s, v):
        rest = s.mem.get(('O', 0))
        return option(ev, s, v), ev.bits(rest, 16)
    bits = dict(low)
    judge(P, '<control::bitmask::BitMaskIter as std::iter::Iterator>::next', word(low), step,
          lambda n: (None, bits[n]) if n == 'zero' else (n, bits[n][:n] + [0] + bits[n][n + 1:]))
    return O


def loads(P, O, E):
    for fn, ok in (('load', ('_mm_loadu_si128', '_mm_lddqu_si128', 'read_unaligned')),
                   ('load_aligned', ('_mm_load_si128', '_mm_loadu_si128', '_mm_lddqu_si128', 'read', 'read_unaligned'))):
        f, I, rs = P.run(G + fn)
        if f is None:
            O.undecided.append((G + fn, 'absent'))
            continue
        for s, v in rs:
            O.cases += 1
            x = v[4][0][1] if is_agg(v) else v
            if not (isinstance(x, tuple) and x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ok and x[2] == (('in', 0),)):
                O.bad(G + fn, 'does not read the group at the given place', f)
    f, I, rs = P.run(G + 'store_aligned')
    for s, v in rs:
        O.cases += 1
        w = [t for t in s.trace if t[0] == 'store']
        if len(w) != 1 or w[0][1][0] != ('in', 1) or w[0][1][1] not in (('fld', ('in', 0), '0'), ('in', 0)):
            O.bad(G + 'store_aligned', 'does not write the group to the given place', f)
    f, I, rs = P.run(G + 'static_empty')
    g, I2, rs2 = P.run(G + 'static_empty::ALIGNED_TAGS')
    for s, v in rs2:
        O.cases += 1
        tags = dict(v[4]).get('tags') if is_agg(v) else None
        if not (isinstance(tags, tuple) and tags[0] == 'repeat' and value(Eval({}, 8).bits(tags[1])) == E):
            O.bad(G + 'static_empty', 'the control bytes of the empty table are not all empty', g)
    fill = '<[control::tag::Tag] as control::tag::TagSliceExt>::fill_tag'
    f, I, rs = P.run(fill)
    for s, v in rs:
        O.cases += 1
        w = [t for t in s.trace if t[0] == 'fill']
        if len(w) != 1 or len(w[0][1]) != 3 or w[0][1][0] != ('ptr', ('ref', ('O', 0), ())) or \
                w[0][1][1] not in (('fld', ('in', 1), '0'), ('in', 1)) or w[0][1][2] != ('len', ('in', 0)):
            O.bad(fill, 'does not fill the whole slice with the tag', f)
    f, I, rs = P.run('control::tag::TagSliceExt::fill_empty')
    for s, v in rs:
        O.cases += 1
        w = [t for t in s.trace if t[0] == 'filltag']
        if len(w) != 1 or value(Eval({}, 8).bits(w[0][1][1])) != E:
            O.bad('control::tag::TagSliceExt::fill_empty', 'does not fill with the empty tag', f)


if __name__ == '__main__':
    import sys
    from mir import Program
    sys.setrecursionlimit(10000)
    O = prims(Program(sys.argv[1], ['hashbrown']))
    for v in O.viol:
        print(v)
    print('undecided', O.undecided)
    print(len(O.done), O.cases)
