"""Forward abstract interpretation over the MIR dump.

Abstract state: a store of term values (affine integers, aggregates, references,
sequence segments, index-table pieces), an ordering domain over the integers
(terms.Order), known enum variants, and the calls into user code seen so far.
States are partitioned by the branch decisions the domain cannot decide; callees
of the analysed crates are inlined, library containers are modelled (models.py),
and loops are summarised from one generic iteration (run_loop), never unrolled.
"""
import re
from terms import *
from mir import strip_generics


class Undecided(Exception):
    """The domain cannot follow the construct; the obligation stays open."""


V = ('V',)


class State:
    __slots__ = ('mem', 'ord', 'variants', 'events', 'cnt', 'issues', 'notes', 'trace')

    def __init__(self):
        self.mem = {}
        self.ord = Order()
        self.variants = {}
        self.events = []
        self.cnt = {}
        self.issues = []
        self.notes = []
        self.trace = []

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.ord = self.ord.copy()
        s.variants = dict(self.variants)
        s.events = list(self.events)
        s.cnt = dict(self.cnt)
        s.issues = list(self.issues)
        s.notes = list(self.notes)
        s.trace = list(self.trace)
        return s

    def assume(self, cond):
        c = self.copy()
        if c.ord.assume(cond):
            return c
        return None

    def fork(self, cond):
        """[(state with cond, True), (state without, False)], infeasible ones dropped."""
        t = self.ord.truth(cond)
        if t is True:
            return [(self, True)]
        if t is False:
            return [(self, False)]
        out = []
        a = self.assume(cond)
        if a:
            out.append((a, True))
        b = self.assume(neg(cond))
        if b:
            out.append((b, False))
        return out

    def ordinal(self, key):
        k = self.cnt.get(key, 0)
        self.cnt[key] = k + 1
        return k

    def substitute(self, m):
        self.mem = {r: subst(v, m) for r, v in self.mem.items()}
        self.ord.substitute(m)
        self.variants = {subst(k, m): v for k, v in self.variants.items()}


class Frame:
    __slots__ = ('id', 'fn', 'loops', 'depth', 'callees', 'tymap')

    def __init__(self, i, fn, depth):
        self.id = i
        self.fn = fn
        self.depth = depth


class Ctx:
    """Call-site information given to a model."""
    __slots__ = ('I', 'fr', 'callee', 'line', 'dest_ty', 'path', 'fn')

    def where(self):
        return '%s:%s' % (self.fr.fn['file'], self.line)


# ---------------------------------------------------------------- loops
def natural_loops(fn):
    if '_loops' in fn:
        return fn['_loops']
    B = fn['blocks']
    n = len(B)
    succ = [[] for _ in range(n)]
    for i, b in enumerate(B):
        t = b['t']
        if t[0] == 'goto':
            succ[i] = [t[1]]
        elif t[0] == 'switch':
            succ[i] = [x[1] for x in t[2]] + [t[3]]
        elif t[0] == 'call' and t[4] is not None:
            succ[i] = [t[4]]
        elif t[0] == 'drop':
            succ[i] = [t[2]]
        elif t[0] == 'assert':
            succ[i] = [t[4]]
    # reachable, reverse postorder
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        u, it = stack[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                stack.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    dom = {rpo[0]: rpo[0]}
    changed = True

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = dom[a]
            while idx[b] > idx[a]:
                b = dom[b]
        return a
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in dom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                d = inter(d, p)
            if dom.get(b) != d:
                dom[b] = d
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dominates(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    fn['_loops'] = loops
    fn['_succ'] = succ
    return loops


# ---------------------------------------------------------------- interpreter
STD_VARIANTS = {'std::option::Option': 2, 'std::result::Result': 2, 'std::ops::ControlFlow': 2, 'std::ops::Bound': 3,
                'std::cmp::Ordering': 3, 'std::borrow::Cow': 2}


class Interp:
    MAX_DEPTH = 24

    def __init__(self, prog, models, opaque=None, budget=6000, types=None):
        self.prog = prog
        self.models = models
        self.opaque = opaque or (lambda fn: False)
        self.budget = budget
        self.steps = 0
        self.nf = 0
        self.uid = 0
        self.panics = []
        self.fnvals = {}
        self.visited = set()
        self.unmodelled = {}
        self.ne_impls = None
        self.user_calls = 0

    def fresh(self, name):
        self.uid += 1
        return (name, self.uid)

    # ------------------------------------------------------------ memory
    def proj(self, st, v, e):
        k = e[0]
        if k == 'f':
            return self.field(st, v, e[1])
        if k == 'd':
            if is_agg(v):
                return v
            return ('as', v, e[2])
        if k == 'idx':
            return self.seq_get(st, v, e[1])
        if k == 'rng':
            if isinstance(v, tuple) and v[0] == 'seq':
                r = self.split_nofork(st, v, e[1])
                if r:
                    r2 = self.split_nofork(st, ('seq', r[1]), sub(e[2], e[1]))
                    if r2:
                        return ('seq', r2[0])
            return ('slice', v, e[1], e[2])
        if k == 'slot':
            return e[1]
        raise Undecided('projection %r' % (e,))

    def field(self, st, v, name):
        if is_agg(v):
            for n, x in v[4]:
                if n == name:
                    return x
            raise Undecided('field %s of %s' % (name, v[1]))
        if isinstance(v, tuple) and v and v[0] == 'ovr':
            for n, x in v[2]:
                if n == name:
                    return x
            return self.field(st, v[1], name)
        if isinstance(v, tuple) and v and v[0] in ('seq', 'slice') and name == 'entries':
            return v    # slice newtype
        if name == '0' and isinstance(v, tuple) and v and v[0] == 'fld' and v[2] == 'hash':
            return v    # hash newtype
        return ('fld', v, name)

    def setproj(self, st, v, e, new):
        k = e[0]
        if k == 'f':
            if is_agg(v):
                fs = [(n, new if n == e[1] else x) for n, x in v[4]]
                if not any(n == e[1] for n, _ in v[4]):
                    fs.append((e[1], new))
                return ('agg', v[1], v[2], v[3], tuple(fs))
            if v is None:
                return ('agg', '?', 0, '?', ((e[1], new),))
            if v[0] in ('seq', 'slice') and e[1] == 'entries':
                return new
            base, ov = (v[1], dict(v[2])) if v[0] == 'ovr' else (v, {})
            if new == ('fld', base, e[1]):
                ov.pop(e[1], None)
            else:
                ov[e[1]] = new
            if not ov:
                return base
            return ('ovr', base, tuple(sorted(ov.items())))
        if k == 'd':
            return new
        if k == 'idx':
            return self.seq_set(st, v, e[1], new)
        if k == 'rng':
            if isinstance(v, tuple) and v[0] == 'seq':
                r = self.split_nofork(st, v, e[1])
                if r:
                    r2 = self.split_nofork(st, ('seq', r[1]), sub(e[2], e[1]))
                    if r2 and new[0] == 'seq':
                        return ('seq', r[0] + new[1] + r2[1])
            raise Undecided('slice store')
        if k == 'slot':
            return self.tab_update(st, v, e[1], new, None)
        raise Undecided('store projection %r' % (e,))

    def root(self, st, r):
        if r in st.mem:
            return st.mem[r]
        if r[0] == 'D':
            st.mem[r] = ('load', r[1])
            return st.mem[r]
        return None

    def read(self, st, root, path):
        v = self.root(st, root)
        if v is None:
            raise Undecided('read of uninitialised %r' % (root,))
        for e in path:
            v = self.proj(st, v, e)
        return v

    def write(self, st, root, path, val):
        def go(v, i):
            if i == len(path):
                return val
            e = path[i]
            if v is None:
                inner = None
            elif e[0] == 'd' and not is_agg(v):
                # writing a field of a downcast place: build the variant
                return go(v, i + 1)
            elif i + 1 < len(path):
                inner = self.proj(st, v, e) if not (is_agg(v) and e[0] == 'f' and not any(
                    n == e[1] for n, _ in v[4])) else None
            else:
                inner = None
            return self.setproj(st, v, e, go(inner, i + 1))
        st.mem[root] = go(self.root(st, root) if path else None, 0)

    def load(self, st, ref):
        if not (isinstance(ref, tuple) and ref and ref[0] == 'ref'):
            return self.read(st, ('D', ref), ())
        return self.read(st, ref[1], ref[2])

    def store(self, st, ref, val):
        if not (isinstance(ref, tuple) and ref and ref[0] == 'ref'):
            self.write(st, ('D', ref), (), val)
        else:
            self.write(st, ref[1], ref[2], val)

    def place(self, st, fr, p):
        root, path = ('L', fr.id, p[0]), ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, path)
                if isinstance(v, tuple) and v and v[0] == 'ref':
                    root, path = v[1], v[2]
                else:
                    root, path = ('D', v), ()
                    self.root(st, root)
            elif k == 'f':
                path = path + (('f', e[2]),)
            elif k == 'd':
                path = path + (('d', e[1], e[2]),)
            elif k == 'i':
                i = self.read(st, ('L', fr.id, e[1]), ())
                path = self.path_idx(path, i)
            elif k == 'ci':
                if e[3]:
                    n = self.ref_len(st, ('ref', root, path))
                    i = sub(n, e[1])
                else:
                    i = e[1]
                path = self.path_idx(path, i)
            elif k == 'ss':
                n = self.ref_len(st, ('ref', root, path))
                hi = sub(n, e[2]) if e[3] else e[2]
                path = self.path_rng(path, e[1], hi)
            else:
                raise Undecided('place projection')
        return root, path

    @staticmethod
    def path_idx(path, i):
        if path and path[-1][0] == 'rng':
            return path[:-1] + (('idx', add(path[-1][1], i)),)
        return path + (('idx', i),)

    @staticmethod
    def path_rng(path, lo, hi):
        if path and path[-1][0] == 'rng':
            b = path[-1][1]
            return path[:-1] + (('rng', add(b, lo), add(b, hi)),)
        return path + (('rng', lo, hi),)

    # ------------------------------------------------------------ sequences
    @staticmethod
    def seg_len(s):
        return 1 if s[0] == 'one' else sub(s[3], s[2])

    def seq_len(self, v):
        if isinstance(v, tuple) and v and v[0] == 'seq':
            n = 0
            for s in v[1]:
                n = add(n, self.seg_len(s))
            return n
        if isinstance(v, tuple) and v and v[0] == 'slice':
            return sub(v[3], v[2])
        if is_agg(v, '[]'):
            return len(v[4])
        return ('len', v)

    def ref_len(self, st, ref):
        if isinstance(ref, tuple) and ref and ref[0] == 'ref':
            if ref[2] and ref[2][-1][0] == 'rng':
                return sub(ref[2][-1][2], ref[2][-1][1])
            return self.seq_len(self.load(st, ref))
        return ('len', ('load', ref))

    def seg_elem(self, s, k):
        if s[0] == 'one':
            return s[1]
        if s[0] in ('sub', 'rsub'):
            i = add(s[2], k) if s[0] == 'sub' else sub(sub(s[3], 1), k)
            if s[1][0] == 'mapped':
                return subst(s[1][2], {s[1][1]: i})
            return ('elem', s[1], i)
        raise Undecided('segment')

    def seq_get(self, st, v, i):
        if isinstance(v, tuple) and v and v[0] == 'slice':
            return self.seq_get(st, v[1], add(v[2], i))
        if is_agg(v, '[]') and isinstance(i, int) and i < len(v[4]):
            return v[4][i][1]
        if not (isinstance(v, tuple) and v and v[0] == 'seq'):
            return ('elem', v, i)
        p = 0
        for s in v[1]:
            n = self.seg_len(s)
            if st.ord.proves(le(p, i)) and st.ord.proves(lt(i, add(p, n))):
                return self.seg_elem(s, sub(i, p))
            p = add(p, n)
        return ('get', v, i)

    def seq_set(self, st, v, i, new):
        if is_agg(v, '[]') and isinstance(i, int) and i < len(v[4]):
            fs = list(v[4])
            fs[i] = (str(i), new)
            return ('agg', '[]', 0, '[]', tuple(fs))
        if not (isinstance(v, tuple) and v and v[0] == 'seq'):
            if isinstance(v, tuple) and v and v[0] == 'store':
                return ('store', v, i, new)
            return ('store', v, i, new)
        r = self.split_nofork(st, v, i)
        if r:
            r2 = self.split_nofork(st, ('seq', r[1]), 1)
            if r2:
                return ('seq', self.clean(st, r[0] + (('one', new),) + r2[1]))
        raise Undecided('element store at undecided position')

    def clean(self, st, segs):
        out = []
        for s in segs:
            if s[0] != 'one' and st.ord.proves(le(s[3], s[2])):
                continue
            if out and s[0] == 'sub' and out[-1][0] == 'sub' and out[-1][1] == s[1] \
                    and out[-1][3] == s[2]:
                out[-1] = ('sub', s[1], out[-1][2], s[3])
                continue
            out.append(s)
        return tuple(out)

    @staticmethod
    def cut(s, k):
        if s[0] == 'sub':
            return ('sub', s[1], s[2], add(s[2], k)), ('sub', s[1], add(s[2], k), s[3])
        if s[0] == 'rsub':
            return ('rsub', s[1], sub(s[3], k), s[3]), ('rsub', s[1], s[2], sub(s[3], k))
        raise Undecided('cut')

    def split_nofork(self, st, seq, pos):
        r = self.split(st, seq, pos, False)
        return r[0][1:] if r else None

    def split(self, st, seq, pos, forking=True):
        """Split a sequence at `pos`: [(state, segs before, segs after)]."""
        segs = seq[1]
        p = 0
        for i, s in enumerate(segs):
            if st.ord.proves(eq(pos, p)):
                return [(st, self.clean(st, segs[:i]), self.clean(st, segs[i:]))]
            n = self.seg_len(s)
            q = add(p, n)
            t = st.ord.truth(le(q, pos))
            if t is None:
                if not forking:
                    if st.ord.proves(le(p, pos)) and st.ord.proves(le(pos, q)) and s[0] != 'one':
                        a, b = self.cut(s, sub(pos, p))
                        return [(st, self.clean(st, segs[:i] + (a,)),
                                 self.clean(st, (b,) + segs[i + 1:]))]
                    return []
                out = []
                if st.ord.proves(le(p, pos)) and st.ord.proves(le(pos, q)) and s[0] != 'one':
                    a, b = self.cut(s, sub(pos, p))
                    return [(st, self.clean(st, segs[:i] + (a,)),
                             self.clean(st, (b,) + segs[i + 1:]))]
                for st2, tr in st.fork(le(q, pos)):
                    out += self.split(st2, seq, pos)
                return out
            if t is False:
                if s[0] == 'one':
                    return []
                a, b = self.cut(s, sub(pos, p))
                return [(st, self.clean(st, segs[:i] + (a,)),
                         self.clean(st, (b,) + segs[i + 1:]))]
            p = q
        if st.ord.proves(le(pos, p)):
            return [(st, segs, ())]
        return []

    # ------------------------------------------------------------ index tables
    @staticmethod
    def tab_len(v):
        if v[0] == 'gtab':
            n = ('len', ('gtab', v[1]))
            for op in v[2]:
                if op[0] == 'ins':
                    n = add(n, 1)
                elif op[0] == 'del':
                    n = sub(n, 1)
            return n
        if v[0] != 'tab':
            return ('len', v)
        n = 0
        for p in v[2]:
            if p[0] == 'one':
                n = add(n, 1)
            elif p[0] == 'pc':
                b = pc_bounds(p)
                if b is None:
                    return ('len', v)
                n = add(n, sub(b[1], b[0]))
            else:
                return ('len', v)
        return n

    def members(self, st, tab, x):
        """Pieces of the table that can hold value `x`:
        [(state, piece index, V-term)] plus [(state, None, None)] when absent."""
        out = []
        rest = [st]
        for i, p in enumerate(tab[2]):
            nrest = []
            for s in rest:
                if p[0] == 'one':
                    for s2, t in s.fork(eq(p[2], x)):
                        if t:
                            out.append((s2, i, None))
                        else:
                            nrest.append(s2)
                    continue
                inv = pc_inverse(p, x)
                if inv is None:
                    raise Undecided('table piece without inverse')
                cur = [s]
                for c in p[2]:
                    nxt = []
                    for s1 in cur:
                        for s2, t in s1.fork(subst(c, {V: inv})):
                            if t:
                                nxt.append(s2)
                            else:
                                nrest.append(s2)
                    cur = nxt
                for s1 in cur:
                    out.append((s1, i, inv))
            rest = nrest
        for s in rest:
            out.append((s, None, None))
        return out

    @staticmethod
    def pc_hash(p, inv):
        return p[2 - 1] if p[0] == 'one' else subst(p[4], {V: inv})

    def tab_remove_member(self, tab, i, inv):
        p = tab[2][i]
        ps = list(tab[2])
        if p[0] == 'one':
            del ps[i]
        else:
            ps[i:i + 1] = [pc_and(p, lt(V, inv)), pc_and(p, lt(inv, V))]
        return ('tab', tab[1], tuple(x for x in ps if x))

    def tab_update(self, st, tab, old, new, h):
        """Overwrite the slot holding `old` by `new`; position must be decided."""
        if tab[0] == 'gtab':
            log = list(tab[2])
            # merge with the preceding find of the same slot
            return ('gtab', tab[1], tuple(log) + (('upd', old, new, self.gtab_hash(log, old)),))
        r = [m for m in self.members(st, tab, old)]
        if len(r) != 1:
            raise Undecided('slot of undecided piece')
        _, i, inv = r[0]
        if i is None:
            raise Undecided('slot not in table')
        p = tab[2][i]
        hh = self.pc_hash(p, inv)
        t2 = self.tab_remove_member(tab, i, inv)
        return ('tab', tab[1], t2[2] + (('one', hh, new),))

    @staticmethod
    def gtab_hash(log, old):
        for op in reversed(log):
            if op[0] == 'find' and op[1] == old:
                return op[2]
        return None

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            r, p = self.place(st, fr, o[1])
            return self.read(st, r, p)
        if o[0] == 'const':
            return self.const(st, fr, o[1])
        return ('rt',)

    def const(self, st, fr, c):
        ty = fr.fn['crate'].ty(c['ty'])
        if 'callee' in c:
            cal = c['callee']
            key = ('fnval', cal.get('rfn') or cal['fn'], tuple(cal.get('rargs') or cal['args'])
                   if fr.fn['crate'] else ())
            self.fnvals[key] = cal
            return key
        if ty['s'] == 'bool' and 'v' in c:
            return TRUE if c['v'] else FALSE
        if 'v' in c:
            return c['v']
        if ty['s'] == '()':
            return UNIT
        if 'promoted' in c:
            return self.promoted(st, fr, c['promoted'])
        if 'cpath' in c:
            r = self.const_item(st, fr, c)
            if r is not None:
                return r
        return ('const', c.get('cpath') or c.get('s'))

    def const_item(self, st, fr, c):
        m = self.models.get('const:' + strip_generics(c['cpath']))
        if m is not None:
            return m(self, st, c) if callable(m) else m
        fs = self.prog.by_path.get(strip_generics(c['cpath']))
        if fs and len(fs) == 1 and not fs[0].get('gparams'):
            try:
                r = self.call_fn(st, fs[0], [], fr.depth + 1)
                if len(r) == 1:
                    return r[0][1]
            except Undecided:
                pass
        return ('const', strip_generics(c['cpath']))

    def promoted(self, st, fr, i):
        b = fr.fn['promoted'][i]
        f = dict(b)
        f.update(crate=fr.fn['crate'], file=fr.fn['file'], line=fr.fn['line'],
                 path=fr.fn['path'] + '::promoted', fn=fr.fn['fn'] + '::promoted%d' % i, promoted=[], is_promoted=True)
        r = self.call_fn(st, f, [], fr.depth + 1)
        if len(r) != 1:
            raise Undecided('promoted')
        st.mem.update(r[0][0].mem)
        return r[0][1]

    def truthy(self, v):
        """Boolean value -> condition."""
        return v

    def binop(self, st, op, a, b):
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
            r = add(a, b)
        elif op in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
            r = sub(a, b)
        elif op in ('Mul', 'MulUnchecked', 'MulWithOverflow'):
            if is_int(a):
                r = scale(b, a)
            elif is_int(b):
                r = scale(a, b)
            else:
                r = ('mul',) + tuple(sorted((a, b), key=repr))
        elif op == 'Lt':
            return lt(a, b)
        elif op == 'Le':
            return le(a, b)
        elif op == 'Gt':
            return lt(b, a)
        elif op == 'Ge':
            return le(b, a)
        elif op in ('Eq', 'Ne'):
            r = self.eqterm(a, b)
            return r if op == 'Eq' else neg(r)
        elif op in ('BitAnd', 'BitOr', 'BitXor'):
            bools = (TRUE, FALSE)
            if a in bools or b in bools:
                x, y = (a, b) if a in bools else (b, a)
                if op == 'BitAnd':
                    return y if x == TRUE else FALSE
                if op == 'BitOr':
                    return TRUE if x == TRUE else y
                return neg(y) if x == TRUE else y
            if is_int(a) and is_int(b):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            return (op,) + tuple(sorted((a, b), key=repr))
        elif op in ('Div', 'Rem', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            op = op.replace('Unchecked', '')
            if is_int(a) and is_int(b):
                if op == 'Div' and b:
                    return a // b
                if op == 'Rem' and b:
                    return a % b
                if op == 'Shl':
                    return (a << b) & USIZE_MAX
                if op == 'Shr':
                    return a >> b
            if op == 'Shl' and is_int(b):
                return scale(a, 1 << b)
            if op == 'Shr' and is_int(b):
                return ('Div', a, 1 << b)
            return (op, a, b)
        else:
            return (op, a, b)
        if op.endswith('WithOverflow'):
            return tup(r, FALSE)
        return r

    def eqterm(self, a, b):
        bools = (TRUE, FALSE)
        if a in bools or b in bools:
            x, y = (a, b) if a in bools else (b, a)
            return y if x == TRUE else neg(y)
        if is_agg(a) and is_agg(b) and not a[4] and not b[4]:
            return TRUE if a[2] == b[2] else FALSE
        return eq(a, b)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'rawptr'):
            root, path = self.place(st, fr, r[2])
            if root[0] == 'D' and not path:
                return root[1]
            return ('ref', root, path)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(st, fr, r, v)
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if is_int(v) or (isinstance(v, tuple) and v[0] in ('lin', 'BitAnd', 'BitOr', 'not!')):
                    return v[1] if isinstance(v, tuple) and v[0] == 'not!' else ('not!', v)
                if isinstance(v, tuple) and v[0] in ('le', 'eq0', 'bool', 'not', 'and', 'or'):
                    return neg(v)
                return neg(v)
            if r[1] == 'PtrMetadata':
                return self.ref_len(st, v)
            if r[1] == 'Neg':
                return scale(v, -1)
            return (r[1], v)
        if k == 'discr':
            root, path = self.place(st, fr, r[1])
            v = self.read(st, root, path)
            d = self.discr(st, v)
            if isinstance(d, tuple):
                self.nvariants[v] = self.variant_count(fr, r[1])
            return d
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            if kind[0] == 'tuple':
                return tup(*ops)
            if kind[0] == 'array':
                return agg('[]', 0, '[]', [(str(i), v) for i, v in enumerate(ops)])
            if kind[0] == 'adt':
                names = kind[4]
                return agg(kind[1], kind[2], kind[3], list(zip(names, ops)))
            if kind[0] == 'closure':
                return agg('closure:' + kind[1], 0, 'closure', [(str(i), v) for i, v in enumerate(ops)])
            if kind[0] == 'rawptr':
                return ('rawptr',) + tuple(ops)
            raise Undecided('aggregate')
        if k == 'repeat':
            return ('repeat', self.operand(st, fr, r[1]), r[2])
        raise Undecided('rvalue ' + str(k))

    def cast(self, st, fr, r, v):
        if 'IntToInt' in r[1]:
            ty = fr.fn['crate'].ty(r[3])['s']
            if v in (TRUE, FALSE):
                return 1 if v == TRUE else 0
            if is_int(v):
                bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64,
                        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(ty)
                if bits:
                    x = v & ((1 << bits) - 1)
                    if ty[0] == 'i' and x >> (bits - 1):
                        x -= 1 << bits
                    return x
            if ty in ('usize', 'u64', 'isize', 'i64', 'u128', 'i128'):
                return v
            return ('cast', ty, v)
        return v

    def discr(self, st, v):
        if is_agg(v):
            return v[2]
        if v in st.variants:
            return st.variants[v]
        return ('discr', v)

    # ------------------------------------------------------------ running
    def call_fn(self, st, fn, args, depth):
        """Abstractly run `fn`; returns [(state, return value)]."""
        if depth > self.MAX_DEPTH:
            raise Undecided('call depth')
        self.visited.add(fn['fn'])
        self.nf += 1
        fr = Frame(self.nf, fn, depth)
        st = st.copy()
        args = list(args)
        if len(args) != fn['argc']:
            raise Undecided('arity of ' + fn['path'])
        for i, a in enumerate(args):
            st.mem[('L', fr.id, i + 1)] = a
        rets, exits, conts = self.run(st, fr, 0, None, None)
        out = []
        for s in rets:
            v = s.mem.get(('L', fr.id, 0), UNIT)
            if not fn.get('is_promoted'):
                s.mem = {r: x for r, x in s.mem.items() if not (r[0] == 'L' and r[1] == fr.id)}
            out.append((s, v))
        return out

    def run(self, st, fr, start, within, header):
        """Explore from block `start`.  Within a loop body (`within`), stop at the
        header (continue) and at blocks outside (exit).
        Returns (returned states, [(state, block)] exits, continue states)."""
        rets, exits, conts = [], [], []
        loops = natural_loops(fr.fn)
        work = [(st, start, True)]
        while work:
            s, b, first = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Undecided('budget')
            if within is not None and not (first and b == start):
                if b == header:
                    conts.append(s)
                    continue
                if b not in within:
                    exits.append((s, b))
                    continue
            if b in loops and not (within is not None and b == header):
                for s2, nb in self.run_loop(s, fr, b, loops[b]):
                    if nb == 'return':
                        rets.append(s2)
                    else:
                        work.append((s2, nb, False))
                continue
            for s2, nb in self.block(s, fr, b):
                if nb == 'return':
                    rets.append(s2)
                else:
                    work.append((s2, nb, False))
        return rets, exits, conts

    def block(self, st, fr, b):
        st = st.copy()
        B = fr.fn['blocks'][b]
        if B['cleanup']:
            return []
        for s in B['s']:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                root, path = self.place(st, fr, s[1])
                if root[0] in ('D', 'O') or (root[0] == 'L' and root[1] != fr.id):
                    self.on_store(st, fr, root, path, v, s[3])
                self.write(st, root, path, v)
            elif s[0] == 'setd':
                raise Undecided('set discriminant')
            elif s[0] == 'assume':
                c = self.operand(st, fr, s[1])
                n = st.assume(c)
                if n is None:
                    return []
                st = n
            elif s[0] == 'copynonoverlapping':
                self.event(st, fr, 'copynonoverlapping',
                           [self.operand(st, fr, x) for x in s[1:4]], s[4])
        t = B['t']
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'return':
            return [(st, 'return')]
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'drop':
            self.on_drop(st, fr, t)
            return [(st, t[2])]
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            want = c if t[2] else neg(c)
            out = []
            for s2, tr in st.fork(want):
                if tr:
                    out.append((s2, t[4]))
                else:
                    self.panics.append((s2, t[3], fr.fn, t[6]))
            return out
        if k == 'call':
            return self.call(st, fr, t)
        if k == 'unreachable':
            return []
        raise Undecided('terminator ' + k)

    def on_store(self, st, fr, root, path, v, line):
        pass

    def on_drop(self, st, fr, t):
        pass

    def event(self, st, fr, name, args, line, ret=None, kind='call'):
        st.events.append({'name': name, 'args': tuple(args), 'ret': ret, 'line': line,
                          'fn': fr.fn['fn'], 'file': fr.fn['file'], 'kind': kind})

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        if v in (TRUE, FALSE):
            v = 1 if v == TRUE else 0
        if is_int(v):
            for val, b in t[2]:
                if val == v:
                    return [(st, b)]
            return [(st, t[3])]
        out = []
        if isinstance(v, tuple) and v[0] == 'discr':
            term = v[1]
            alts = [x[0] for x in t[2]]
            for val, b in t[2]:
                s2 = st.copy()
                s2.variants[term] = val
                out.append((s2, b))
            other = fr.fn['blocks'][t[3]]
            if other['t'][0] != 'unreachable' and not (
                    sorted(alts) == [0, 1] and self.two_variants(term, fr, False)):
                s2 = st.copy()
                if len(alts) == 1 and alts[0] in (0, 1) and self.two_variants(term, fr):
                    s2.variants[term] = 1 - alts[0]
                out.append((s2, t[3]))
            return out
        # boolean condition
        if len(t[2]) == 1 and t[2][0][0] == 0 and not self.looks_int(v):
            for s2, tr in st.fork(v):
                out.append((s2, t[3] if tr else t[2][0][1]))
            return out
        cur = st
        for val, b in t[2]:
            nxt = None
            for s2, tr in cur.fork(eq(v, val)):
                if tr:
                    out.append((s2, b))
                else:
                    nxt = s2
            if nxt is None:
                return out
            cur = nxt
        out.append((cur, t[3]))
        return out

    nvariants = {}

    def variant_count(self, fr, place):
        """Number of variants of the enum at `place`, None if unknown."""
        ty = fr.fn['locals'][place[0]][0]
        cr = fr.fn['crate']
        for e in place[1]:
            if e[0] == 'f':
                ty = e[3]
            elif e[0] == '*':
                ty = cr.ty(ty).get('t')
            elif e[0] != 'd':
                return None
        t = cr.ty(ty) if ty is not None else {}
        if t.get('k') != 'adt':
            return None
        if t['path'] in cr.adts:
            return len(cr.adts[t['path']]['variants'])
        return STD_VARIANTS.get(t['path'].replace('core::', 'std::'))

    def two_variants(self, term, fr, default=True):
        n = self.nvariants.get(term)
        return default if n is None else n == 2

    @staticmethod
    def looks_int(v):
        return is_int(v) or (isinstance(v, tuple) and v and v[0] in ('lin', 'Div', 'mul', 'cast', 'len', 'int'))

    def call(self, st, fr, t):
        f = t[1]
        line = t[6]
        args = [self.operand(st, fr, a) for a in t[2]]
        c = Ctx()
        c.I, c.fr, c.line = self, fr, line
        c.fn = fr.fn
        try:
            c.dest_ty = self.place_ty(fr, t[3])
        except Exception:
            c.dest_ty = None
        if f[0] == 'const' and 'callee' in f[1]:
            c.callee = f[1]['callee']
            res = self.call_callee(st, c, c.callee, args)
        else:
            fv = self.operand(st, fr, f)
            c.callee = {'path': '<indirect>', 'fn': '<indirect>', 'args': []}
            res = self.call_value(st, c, fv, args)
        out = []
        for s2, v in res:
            if t[4] is None or v is None:
                continue
            root, path = self.place(s2, fr, t[3])
            self.write(s2, root, path, v)
            out.append((s2, t[4]))
        return out

    def place_ty(self, fr, p):
        ty = fr.fn['locals'][p[0]][0]
        cr = fr.fn['crate']
        for e in p[1]:
            if e[0] == 'f':
                ty = e[3]
            elif e[0] == '*':
                ty = cr.ty(ty).get('t')
            else:
                return None
        return cr.ty(ty)

    def call_callee(self, st, c, cal, args):
        fnid = cal.get('rfn') or cal['fn']
        path = strip_generics(cal.get('rpath') or cal['path'])
        c.path = path
        own = self.default_ne(c, cal, path)
        if own is not None:
            return [(s, neg(v)) for s, v in self.call_fn(st, own, args, c.fr.depth + 1) if v is not None]
        m = self.models.get(path)
        if m is None and not (cal.get('rfn') in self.prog.fns):
            m = self.models.get(strip_generics(cal['path']))
        if m is None and 'rpath' in cal:
            m = self.models.get('*::' + path.rsplit('::', 1)[-1])
        if m is not None:
            r = m(self, st.copy(), args, c)
            if r is not NotImplemented:
                return r
        tail = strip_generics(cal['path']).rsplit('::', 1)[-1]
        fncall = tail in ('call', 'call_mut', 'call_once') and cal.get('trait', '').startswith('std::ops::Fn')
        if fnid in self.prog.fns and not self.opaque(self.prog.fns[fnid]) and not fncall:
            return self.call_fn(st, self.prog.fns[fnid], args, c.fr.depth + 1)
        if fncall:
            tupv = args[1]
            if is_agg(tupv, '()'):
                return self.call_value(st, c, args[0], [v for _, v in tupv[4]])
        if fnid in self.prog.fns:
            return self.opaque_call(st, c, path, args)
        if path.startswith(('core::panicking', 'std::rt::panic', 'std::panicking')) or \
                path.endswith(('panic_fmt', 'unwrap_failed', 'expect_failed')):
            self.panics.append((st.copy(), path, c.fr.fn, c.line))
            return []
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        return self.opaque_call(st, c, path, args)

    def default_ne(self, c, cal, path):
        """The `eq` that a provided `ne` negates, when it is a function of the crates looked at."""
        if path != 'std::cmp::PartialEq::ne' or not cal.get('args') or not getattr(c, 'fr', None):
            return None
        ty = c.fr.fn['crate'].ty(cal['args'][0])
        if ty.get('k') != 'adt':
            return None
        if self.ne_impls is None:
            self.ne_impls = {}
            for f in self.prog.fns.values():
                m = re.match(r'<([\w:]+)(<.*>)? as std::cmp::PartialEq>::eq$', f['path'])
                if m and f['path'] not in self.models and not self.opaque(f):
                    self.ne_impls.setdefault(m.group(1), f)
        return self.ne_impls.get(ty['path'])

    def snapshot(self, st, a):
        """Argument as seen by an opaque callee: references become their target."""
        if isinstance(a, tuple) and a and a[0] == 'ref':
            try:
                v = self.load(st, a)
            except Undecided:
                return a
            return ('&', self.snapshot(st, v)) if isinstance(v, tuple) and v and v[0] != 'seq' else ('&', v)
        if is_agg(a):
            return ('agg', a[1], a[2], a[3], tuple((n, self.snapshot(st, v)) for n, v in a[4]))
        return a

    def opaque_call(self, st, c, path, args, kind='call', havoc=True):
        st = st.copy()
        snap = tuple(self.snapshot(st, a) for a in args)
        k = st.ordinal((path, snap))
        ret = ('call', path, snap, k)
        if c.dest_ty is not None and c.dest_ty['s'] == '()':
            ret = UNIT
        self.event(st, c.fr, path, list(zip(args, snap)), c.line, ret, kind)
        return [(st, ret)]

    def call_value(self, st, c, fv, args):
        v = fv
        n = 0
        while isinstance(v, tuple) and v and v[0] == 'ref' and n < 8:
            fv = v
            v = self.load(st, v)
            n += 1
        if is_agg(v) and v[1].startswith('closure:'):
            fn = self.prog.fns.get(v[1][8:])
            if fn is None:
                raise Undecided('closure body')
            t1 = fn['crate'].ty(fn['locals'][1][0])
            if t1['k'] == 'ref':
                if not (isinstance(fv, tuple) and fv[0] == 'ref'):
                    self.uid += 1
                    root = ('T', self.uid)
                    st = st.copy()
                    st.mem[root] = v
                    fv = ('ref', root, ())
                selfv = fv
            else:
                selfv = v
            return self.call_fn(st, fn, [selfv] + list(args), c.fr.depth + 1)
        if isinstance(v, tuple) and v and v[0] == 'fnval':
            cal = self.fnvals[v]
            fnid = v[1]
            if cal['path'].split('::')[-1] in ('Some', 'Ok', 'Err') and len(args) == 1:
                tail = cal['path'].split('::')[-1]
                return [(st, {'Some': some, 'Ok': ok, 'Err': err}[tail](args[0]))]
            c2 = Ctx()
            c2.I, c2.fr, c2.line, c2.fn, c2.dest_ty, c2.callee = self, c.fr, c.line, c.fn, None, cal
            return self.call_callee(st, c2, cal, args)
        return self.opaque_call(st, c, '<callback>', [fv] + list(args), 'callback')

    # ------------------------------------------------------------ loops
    def run_loop(self, st, fr, header, body):
        import loops
        return loops.summarise(self, st, fr, header, body)


# ---------------------------------------------------------------- table pieces
def pc(base, lo, hi, value, h):
    """Table piece: for V in [lo,hi) of `base`, slot value `value(V)`, hash `h(V)`."""
    return ('pc', base, (le(lo, V), lt(V, hi)), value, h)


def pc_and(p, cond):
    if cond == TRUE:
        return p
    if cond == FALSE:
        return None
    return ('pc', p[1], p[2] + (cond,), p[3], p[4])


def pc_bounds(p):
    lo = hi = None
    for c in p[2]:
        if c[0] != 'le':
            return None
        k, d = lin(c[1])
        v = d.get(V, 0)
        rest = mk(k, {t: x for t, x in d.items() if t != V})
        if v == 1:      # V + rest <= 0
            b = add(scale(rest, -1), 1)
            if hi is not None and hi != b:
                return None
            hi = b
        elif v == -1:   # rest - V <= 0
            if lo is not None and lo != rest:
                return None
            lo = rest
        else:
            return None
    if lo is None or hi is None:
        return None
    return lo, hi


def pc_inverse(p, x):
    """V such that value(V) == x."""
    k, d = lin(p[3])
    v = d.get(V, 0)
    if v not in (1, -1):
        return None
    rest = mk(k, {t: y for t, y in d.items() if t != V})
    return sub(x, rest) if v == 1 else sub(rest, x)
