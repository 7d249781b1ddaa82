"""C09: the layout that the map publishes for generated code.

The published numbers are followed back to what they are made of: `offset_of` and
`size_of` of a type stay opaque, named by the type and field they speak about, so
a number may only be right because it is that offset of that type.  The three words
of the probed vector are unknown numbers of which only the code's own tests say
which is which.
"""
import re
import loops
import models
from terms import *
from absint import Undecided, Interp, State, strip_generics, is_agg

WORDS = (('word', 0), ('word', 1), ('word', 2))
PTR = ('vecptr',)
CAP = ('veccap',)
CODE = 'entries_layout'


class Layout(Interp):
    """Constant trip counts only: the loop over the three words is followed as written."""

    def __init__(self, prog, mods):
        Interp.__init__(self, prog, mods, lambda f: False, 20000)
        self.generics = {}
        self.word = None

    def const(self, st, fr, c):
        p = c.get('cpath')
        if p:
            fs = self.prog.by_path.get(strip_generics(p)) or []
            if len(fs) == 1 and fs[0]['kind'] == 'AnonConst':
                k = self.names(fr)
                n = self.nf + 1
                self.generics[n] = k
                r = self.call_fn(st, fs[0], [], fr.depth + 1)
                if len(r) == 1:
                    return r[0][1]
                raise Undecided('inline constant')
        return Interp.const(self, st, fr, c)

    def names(self, fr):
        return self.generics.get(fr.id, {})

    def tyname(self, fr, tid):
        s = fr.fn['crate'].ty(tid)['s']
        g = self.names(fr)
        return re.sub(r'(?<![\w:])(%s)(?![\w:])' % '|'.join(map(re.escape, g)), lambda m: g[m.group(1)], s) if g else s

    def call_callee(self, st, c, cal, args):
        f = self.prog.fns.get(cal.get('rfn') or cal['fn'])
        if f and f.get('gparams'):
            ids = cal.get('rargs') if cal.get('rfn') else cal['args']
            k = {}
            for nm, t in zip(f['gparams'], ids or []):
                if nm and isinstance(t, int):
                    k[nm] = self.tyname(c.fr, t)
            self.generics[self.nf + 1] = k
        return Interp.call_callee(self, st, c, cal, args)

    def run_loop(self, st, fr, header, body):
        return self.block(st, fr, header)


def offset_of(I, st, a, c):
    cr = c.fr.fn['crate']
    tid = c.callee['args'][0]
    ty = cr.ty(tid)
    if ty['k'] != 'adt' or a[0] != 0 or not is_int(a[1]):
        raise Undecided('offset of ' + ty['s'])
    adt = I.prog.adt(ty['path']) if hasattr(I.prog, 'adt') else None
    adt = adt or next((x.adts[ty['path']] for x in I.prog.crates.values() if ty['path'] in x.adts), None)
    if adt is None:
        raise Undecided('offset of ' + ty['s'])
    return [(st, ('offset', I.tyname(c.fr, tid), adt['variants'][0][1][a[1]][0]))]


def size_of(I, st, a, c):
    t = I.tyname(c.fr, c.callee['args'][0])
    if t in ('usize', 'u64', 'isize', 'i64'):
        return [(st, 8)]
    return [(st, ('sizeof', t))]


def vec_new(I, st, a, c):
    return [(st, ('probe', I.tyname(c.fr, c.callee['args'][0])))]


def read(I, st, a, c):
    return [(st, ('seq', tuple(('one', w) for w in WORDS)))]


M = {
    'std::intrinsics::offset_of': offset_of,
    'std::mem::size_of': size_of,
    'std::vec::Vec::with_capacity': vec_new,
    'std::vec::Vec::as_ptr': lambda I, st, a, c: [(st, PTR)],
    'std::vec::Vec::as_mut_ptr': lambda I, st, a, c: [(st, PTR)],
    'std::vec::Vec::capacity': lambda I, st, a, c: [(st, CAP)],
    'std::vec::Vec::len': lambda I, st, a, c: [(st, 0)],
    'std::ptr::read': read,
    'std::ptr::const_ptr::read': read,
    'std::ptr::mut_ptr::read': read,
    'std::intrinsics::transmute': read,
    'std::mem::transmute_copy': read,
}


def counted(kind):
    """Searches over a sequence of constant length, one element after another."""
    def f(I, st, args, c):
        ref = args[0]
        it = I.load(st, ref) if isinstance(ref, tuple) and ref and ref[0] == 'ref' else ref
        n = loops.it_len(I, st, it) if isinstance(it, tuple) and it and it[0] == 'it' else None
        if not is_int(n) or n > 8:
            return models.M['std::iter::Iterator::' + kind](I, st, args, c)
        out, live = [], [st.copy()]
        for j in range(n):
            nxt = []
            for s in live:
                for s1, e in loops.it_elem(I, s, it, j, c):
                    for s2, b in I.call_value(s1, c, args[1], [e]):
                        for s3, t in s2.fork(I.truthy(b)):
                            if t != (kind == 'all'):
                                out.append((s3, {'position': some(j), 'any': TRUE, 'all': FALSE}[kind]))
                            else:
                                nxt.append(s3)
            live = nxt
        return out + [(s, {'position': NONE, 'any': FALSE, 'all': TRUE}[kind]) for s in live]
    return f


for _k in ('position', 'any', 'all'):
    for _t in ("<std::slice::Iter<'a, T> as std::iter::Iterator>", 'std::iter::Iterator'):
        M[_t + '::' + _k] = counted(_k)


class Out:
    def __init__(self):
        self.viol, self.undecided = [], []
        self.exits = self.some = 0
        self.fns, self.unm = set(), set()
        self.fields = {}

    def bad(self, rule, what, f):
        k = (rule, f['fn'], what, f['file'], f['line'])
        if k not in self.viol:
            self.viol.append(k)


def unwrap(v):
    """('some', x), ('none',) or None."""
    if is_agg(v, 'std::option::Option'):
        if v[2] == 0:
            return ('none',)
        return ('some', v[4][0][1])
    return None


def settled(s, cond):
    return s.ord.feasible([neg(cond)]) is False


def word_of(s, v, base, O, f, name, want, others):
    """v == base + 8*k where word k is `want` and can be nothing else."""
    if not is_int(sub(v, base)) or sub(v, base) not in (0, 8, 16):
        O.bad('vector', '%s is not a word of the entry vector inside the map' % name, f)
        return None
    k = sub(v, base) // 8
    if not settled(s, eq(WORDS[k], want)):
        O.bad('vector', '%s names a word not known to hold the %s' % (name, 'pointer' if want == PTR else 'length'), f)
        return k
    alone = all(s.ord.feasible([eq(WORDS[j], want)]) is False for j in range(3) if j != k)
    distinct = all(s.ord.feasible([eq(want, o)]) is False for o in others)
    if not alone and not distinct:
        O.bad('ambiguous', '%s is published although another word could hold the same number' % name, f)
    return k


def c09(prog):
    O = Out()
    f = next((x for x in prog.fns.values() if x['fn'] == 'rubymap::entries_layout'), None)
    if f is None:
        return O
    I = Layout(prog, {**models.M, **M})
    I.generics[1] = {}
    st = State()
    for t in WORDS + (PTR, CAP):
        st = st.assume(le(0, t)) or st
    try:
        res = I.call_fn(st, f, [], 0)
    except Undecided as e:
        O.undecided.append((f['fn'], str(e)))
        return O
    O.fns, O.unm = set(I.visited), set(I.unmodelled)
    K = ', '.join(f['gparams'])
    gp = f['gparams']
    bucket = 'Bucket<%s>' % ', '.join(gp[:2])
    core = 'map::core::IndexMapCore<%s>' % ', '.join(gp[:5])
    rmap = 'map::RubyMap<%s>' % ', '.join(gp)
    O.types = (bucket, core, rmap)
    base = add(('offset', rmap, 'core'), ('offset', core, 'entries'))
    for s, v in res:
        if s.ord.feasible() is False:
            continue
        O.exits += 1
        u = unwrap(v)
        if u is None:
            O.undecided.append((f['fn'], 'unknown answer'))
            continue
        if u[0] == 'none':
            continue
        O.some += 1
        d = dict(u[1][4]) if is_agg(u[1], 'EntriesLayout') else {}
        want = {'bucket_size': ('sizeof', bucket), 'key_offset': ('offset', bucket, 'key'),
                'value_offset': ('offset', bucket, 'value')}
        for n, w in want.items():
            O.fields[n] = O.fields.get(n, 0) + 1
            if d.get(n) != w:
                O.bad('entry', '%s is %s' % (n, show(d.get(n))), f)
        for n, w, other in (('ptr_offset', PTR, (0, CAP)), ('len_offset', 0, (PTR, CAP))):
            O.fields[n] = O.fields.get(n, 0) + 1
            word_of(s, d.get(n), base, O, f, n, w, other)
    if not O.some and not O.undecided:
        O.bad('never', 'no layout is ever published', f)
    for ps, what, pf, line in I.panics:
        if ps.ord.feasible() is not False:
            O.bad('panics', 'can panic', f)
    return O


def show(v):
    if isinstance(v, tuple) and v and v[0] == 'offset':
        return 'the offset of %s in %s' % (v[2], v[1])
    if isinstance(v, tuple) and v and v[0] == 'sizeof':
        return 'the size of ' + v[1]
    return str(v)[:80]


if __name__ == '__main__':
    import sys
    from mir import Program
    sys.setrecursionlimit(10000)
    O = c09(Program(sys.argv[1], ['rubymap', 'ruby_traits', 'hashbrown']))
    for v in O.viol:
        print(v)
    print('undecided', O.undecided, O.unm)
    print(O.exits, O.some, O.fields, len(O.fns))
