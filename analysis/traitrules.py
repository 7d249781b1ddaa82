"""C16: equality and hash of the key types that the support library and the slices provide.

Equality exits are judged like the comparisons of C08; a hash may consult nothing
but what equality compares, must feed the caller's hasher and must pass errors on.
"""
import mapcheck
import models
import mapquant
from mapquant import verdict, lost_error, elementwise, loops_mentions, Out, whole, settled
from terms import *
from absint import Undecided, Interp, State
from rmap import Driver

M = {}


def feed(fallible):
    def f(I, st, a, c):
        v = models.deref(I, st, a[0])
        if any('*const' in c.fr.fn['crate'].ty(x)['s'] or '*mut' in c.fr.fn['crate'].ty(x)['s']
               for x in (c.callee or {}).get('args', [])[:1] if isinstance(x, int)):
            v = ('address', v)
        s = st.copy()
        s.trace.append(('fed', v, base_ref(I, st, a[1])))
        out = [(s, ok(UNIT) if fallible else UNIT)]
        if fallible:
            s2 = st.copy()
            p = ('hasherr', v)
            I.event(s2, c.fr, 'hash', (v,), c.line, p, 'user-err')
            out.append((s2, err(p)))
        return out
    return f


def base_ref(I, st, r):
    n = 0
    while isinstance(r, tuple) and r and r[0] == 'ref' and n < 6:
        v = I.load(st, r)
        if not (isinstance(v, tuple) and v and v[0] == 'ref'):
            return r
        r, n = v, n + 1
    return r


M['ruby_traits::RubyHash::ruby_hash'] = M['RubyHash::ruby_hash'] = feed(True)
M['ruby_traits::RubySymHash::ruby_hash'] = M['RubySymHash::ruby_hash'] = feed(False)
M['std::hash::Hash::hash'] = feed(False)
M['RubyEql::eql'] = M['Equivalent::equivalent'] = models.eq_model(True)
M['RubySymEql::eql'] = M['SymEquivalent::equivalent'] = models.eq_model(False)
RAW = {'write', 'write_u8', 'write_u16', 'write_u32', 'write_u64', 'write_u128', 'write_usize', 'write_i8', 'write_i16',
       'write_i32', 'write_i64', 'write_i128', 'write_isize', 'write_length_prefix', 'write_str'}


def raw_write(I, st, a, c):
    s = st.copy()
    s.trace.append(('fed', models.deref(I, st, a[1]), base_ref(I, st, a[0])))
    return [(s, UNIT)]


for _n in RAW:
    M['std::hash::Hasher::' + _n] = raw_write


def hash_prim(I, st, a, c):
    return feed(False)(I, st, a, c)


class Model(dict):
    """Hash and comparison of library types, whatever the type."""

    def get(self, name, default=None):
        r = dict.get(self, name)
        if r is None and isinstance(name, str):
            if name.endswith('::hash') and 'std::hash' in name:
                return M['std::hash::Hash::hash']
            if name.endswith(('::eq', '::ne')) and 'std::cmp::PartialEq' in name:
                return models.M['std::cmp::PartialEq::eq']
        return default if r is None else r

    def __contains__(self, k):
        return self.get(k) is not None

    def __getitem__(self, k):
        r = self.get(k)
        if r is None:
            raise KeyError(k)
        return r


def interp(prog):
    I = Driver(prog).interp()
    I.models = Model({**I.models, **M})
    return I


def shape(crate, ty):
    """'seq', 'option' or 'plain' for the type behind self."""
    n = 0
    while ty['k'] == 'ref' and n < 3:
        ty, n = crate.ty(ty['t']), n + 1
    s = ty['s']
    if s.startswith('std::vec::Vec<') or ty['k'] == 'seq':
        return 'seq'
    if s.startswith('std::option::Option<'):
        return 'option'
    return 'plain'


def exits(prog, op, f, O):
    D = Driver(prog)
    for form in D.forms(f):
        I = interp(prog)
        st, args = D.inputs(f, form)
        for i, a in enumerate(args):
            # &&T receivers
            t = f['crate'].ty(f['locals'][i + 1][0])
            if t['k'] == 'ref' and f['crate'].ty(t['t'])['k'] == 'ref':
                st.mem[('O', 'in%d' % i)] = st.mem[a[1]]
                st.mem[a[1]] = ('ref', ('O', 'in%d' % i), ())
        res = I.call_fn(st, f, args, 0)
        O.fns |= I.visited
        O.unm |= set(I.unmodelled)
        for s, v in res:
            if s.ord.feasible() is not False:
                O.exits += 1
                yield I, s, v, args
        for ps, what, pf, line in I.panics:
            if ps.ord.feasible() is not False:
                O.bad('panics', op, 'can panic', f)


def eql(prog, op, f, O):
    kind = shape(f['crate'], f['crate'].ty(f['locals'][1][0]))
    seen = set()
    for I, s, v, args in exits(prog, op, f, O):
        how, x = verdict(v)
        A, B = models.deref(I, s, args[0]), models.deref(I, s, args[1])
        if lost_error(s, v):
            O.bad('error', op, 'an error of comparing elements is not passed on', f)
            continue
        if how == 'err':
            if not any(e['kind'] == 'user-err' and loops_mentions(x, e['ret']) for e in s.events):
                O.bad('error', op, 'fails with something other than the error of comparing elements', f)
            continue
        if kind == 'seq':
            for s1, t in settled(s, x):
                seen.add(t)
                msg = elementwise(s1, A, B, (0,), t)
                if msg:
                    O.bad('equality', op, msg, f)
        elif kind == 'option':
            va, vb = s.variants.get(A), s.variants.get(B)
            if va == 1 and vb == 1:
                want = models.eqv(('fld', ('as', A, 'Some'), '0'), ('fld', ('as', B, 'Some'), '0'))
                for s1, t in settled(s, x):
                    seen.add(t)
                    if s1.ord.truth(want) is not t:
                        O.bad('equality', op, 'two present keys are not compared with each other', f)
            else:
                known = va == 0 and vb == 0 or va == 0 and vb == 1 or va == 1 and vb == 0
                if not known:
                    O.bad('equality', op, 'decides without looking whether both keys are present', f)
                    continue
                if x != (TRUE if va == vb else FALSE):
                    O.bad('equality', op, 'an absent key equals a present one or differs from an absent one', f)
        else:
            for s1, t in settled(s, x):
                seen.add(t)
                if s1.ord.truth(models.eqv(A, B)) is not t and s1.ord.truth(eq(A, B)) is not t:
                    O.bad('equality', op, 'does not answer whether the two values are equal', f)
    if not {True, False} <= seen:
        O.bad('equality', op, 'always gives the same answer', f)
    O.done[op] = O.done.get(op, 0) + 1


def hashes(prog, op, f, O, entries=None):
    crate = f['crate']
    kind = shape(crate, crate.ty(f['locals'][1][0]))
    for I, s, v, args in exits(prog, op, f, O):
        how, x = verdict(v)
        A = models.deref(I, s, args[0])
        state = args[1]
        if lost_error(s, v):
            O.bad('error', op, 'an error of hashing an element is not passed on', f)
            continue
        if how == 'err':
            continue
        fed = [t for t in s.trace if t[0] == 'fed']
        inner = [(k, n, [[t for t in c.trace[len(s1.trace):] if t[0] == 'fed'] for c in conts], s)
                 for _, k, n, conts, s1 in [t for t in s.trace if t[0] == 'conts']]
        everything = fed + [t for _, _, cs, _ in inner for w in cs for t in w]
        if any(t[2] != state for t in everything):
            O.bad('hash', op, 'feeds a hasher other than the caller\'s', f)
        if kind == 'option' and entries is None:
            va = s.variants.get(A)
            some_ = [('fld', ('as', A, 'Some'), '0')]
            if va is None or [t[1] for t in everything] != (some_ if va == 1 else []):
                O.bad('hash', op, 'a present key is not hashed as itself alone, or an absent one not as nothing', f)
        elif kind == 'seq' or entries is not None:
            base = whole(I, s, args[0]) if entries is not None else A
            fields = entries if entries is not None else ('',)
            for t in everything:
                e = mapquant.elem_of(t[1], base)
                if t[1] != ('len', base) and not (e and e[1] in fields):
                    O.bad('hash', op, 'hashes something equality does not compare', f)
            good = s.ord.feasible([lt(0, ('len', base))]) is False
            for k, n, cs, s1 in inner:
                if s.ord.feasible([neg(eq(n, ('len', base)))]) is False and cs and all(
                        [mapquant.elem_of(t[1], base) for t in w] == [(k, fl) for fl in fields] for w in cs):
                    good = True
            if not good:
                O.bad('hash', op, 'does not hash every element once, in order', f)
        else:
            if [t[1] for t in everything] != [A]:
                O.bad('hash', op, 'does not hash the value itself, once', f)
    O.done[op] = O.done.get(op, 0) + 1


def c16(prog):
    O = Out()
    pairs = {}
    for f in sorted(prog.fns.values(), key=lambda f: f['fn']):
        if '{closure' in f['fn'] or f['fn'].startswith('hashbrown::') or '::tests::' in f['fn']:
            continue
        p = f['path']
        name = p.rsplit('::', 1)[-1]
        me = f['crate'].ty(f['locals'][1][0])['s'] if f['argc'] else ''
        op = '%s for %s' % (name, me)
        try:
            if f['fn'].startswith('ruby_traits::'):
                if name == 'eql':
                    eql(prog, op, f, O)
                    pairs.setdefault(me, set()).add('eql')
                elif name == 'ruby_hash':
                    hashes(prog, op, f, O)
                    pairs.setdefault(me, set()).add('hash')
                elif name == 'equivalent':
                    eql(prog, op, f, O)
            elif name == 'hash' and 'std::hash::Hash>' in p and 'Slice' in p:
                hashes(prog, op, f, O, ('key',) if 'set::slice' in me else ('key', 'value'))
            elif name == 'eq' and 'Slice' in p and 'PartialEq' in p:
                mapquant.compare_op(prog, f['fn'], f, 'elementwise', O,
                                    (0,) if f['fn'].startswith('rubymap::set') else (0, 1))
        except Undecided as e:
            O.undecided.append((op, str(e)))
    O.both = sorted(k for k, v in pairs.items() if len(v) == 2)
    return O


if __name__ == '__main__':
    import sys
    from mir import Program
    sys.setrecursionlimit(10000)
    O = c16(Program(sys.argv[1], ['rubymap', 'ruby_traits', 'hashbrown']))
    for v in O.viol:
        print(v)
    print('undecided', O.undecided, O.unm)
    print(len(O.done), O.exits, len(O.both))
