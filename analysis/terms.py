"""Term algebra and the ordering domain of the abstract interpreter.

Integers are affine forms over opaque atoms; comparisons between them are kept
as a conjunction of linear bounds (the ordering domain).  Entailment is decided
by chaining bounds (transitivity); nothing is guessed, an undecidable question
answers False.
"""

TRUE, FALSE = ('bool', 1), ('bool', 0)
USIZE_MAX = (1 << 64) - 1
LEN_MAX = (1 << 63) - 1


def agg(name, vidx, vname, fields):
    return ('agg', name, vidx, vname, tuple(fields))


def tup(*vals):
    return agg('()', 0, '()', [(str(i), v) for i, v in enumerate(vals)])


UNIT = tup()


def some(v):
    return agg('std::option::Option', 1, 'Some', [('0', v)])


NONE = agg('std::option::Option', 0, 'None', [])


def ok(v):
    return agg('std::result::Result', 0, 'Ok', [('0', v)])


def err(v):
    return agg('std::result::Result', 1, 'Err', [('0', v)])


def is_agg(t, name=None):
    return isinstance(t, tuple) and t and t[0] == 'agg' and (name is None or t[1] == name)


def fget(a, f):
    for n, v in a[4]:
        if n == f:
            return v
    raise KeyError(f)


# ---------------------------------------------------------------- affine forms
def lin(t):
    if isinstance(t, int):
        return t, {}
    if isinstance(t, tuple) and t and t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def add(a, b, k=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for t, v in db.items():
        d[t] = d.get(t, 0) + k * v
    return mk(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin(a)
    return mk(c * k, {t: v * k for t, v in d.items()})


def is_int(t):
    return isinstance(t, int)


def le0(l):
    """l <= 0"""
    c, d = lin(l)
    if not d:
        return TRUE if c <= 0 else FALSE
    return ('le', l)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), 1))


def eq(a, b):
    if a == b:
        return TRUE
    l = sub(a, b)
    c, d = lin(l)
    if not d:
        return TRUE if c == 0 else FALSE
    first = sorted(d.items(), key=repr)[0][1]
    if first < 0:
        l = scale(l, -1)
    return ('eq0', l)


def neg(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if isinstance(c, tuple) and c:
        if c[0] == 'le':
            return le0(add(1, c[1], -1))
        if c[0] == 'not':
            return c[1]
    return ('not', c)


def subst(t, m):
    """Replace atoms by terms everywhere in `t`."""
    if t in m:
        return m[t]
    if isinstance(t, tuple) and t:
        if t[0] == 'lin':
            r = t[1]
            for a, k in t[2]:
                r = add(r, subst(a, m), k)
            return r
        n = tuple(subst(x, m) if isinstance(x, (tuple,)) else x for x in t)
        if n == t:
            return t
        if n[0] == 'le':
            return le0(n[1])
        if n[0] == 'eq0':
            return eq(n[1], 0)
        if n[0] == 'not':
            return neg(n[1])
        return n
    return t


def mentions(t, a):
    if t == a:
        return True
    if isinstance(t, tuple):
        return any(mentions(x, a) for x in t if isinstance(x, tuple))
    return False


class Order:
    """Conjunction of bounds `l <= 0`, disequalities and boolean facts."""
    __slots__ = ('le', 'ne', 'facts', 'signed')

    def __init__(self):
        self.le = []
        self.ne = []
        self.facts = {}
        self.signed = set()

    def copy(self):
        o = Order()
        o.le = list(self.le)
        o.ne = list(self.ne)
        o.facts = dict(self.facts)
        o.signed = self.signed
        return o

    def _implicit(self, a):
        out = []
        if a not in self.signed:
            out.append((0, {a: -1}))
        if isinstance(a, tuple) and a and a[0] in ('len', 'V'):
            out.append((-LEN_MAX, {a: 1}))
        return out

    def _prove(self, c, d, depth, seen):
        d = {k: v for k, v in d.items() if v}
        if not d:
            return c <= 0
        if depth == 0:
            return False
        key = (c, frozenset(d.items()))
        if key in seen:
            return False
        seen.add(key)
        # constant check through sign information
        for a in sorted(d, key=repr):
            k = d[a]
            cands = [(cc, dd) for cc, dd in self.le if dd.get(a, 0) * k > 0]
            cands += [(cc, dd) for cc, dd in self._implicit(a) if dd[a] * k > 0]
            for cc, dd in cands:
                m, r = divmod(k, dd[a])
                if r or m <= 0:
                    continue
                nd = dict(d)
                for t, v in dd.items():
                    nd[t] = nd.get(t, 0) - m * v
                if self._prove(c - m * cc, nd, depth - 1, seen):
                    return True
        return False

    def proves_le0(self, l):
        c, d = lin(l)
        if not d:
            return c <= 0
        if self._prove(c, d, 6, set()):
            return True
        for q in self.ne:
            for s in (q, scale(q, -1)):
                if add(s, 1) == l or sub(l, add(s, 1)) == 0:
                    c2, d2 = lin(s)
                    if self._prove(c2, d2, 6, set()):
                        return True
        return False

    def proves(self, cond):
        """Is the condition certainly true?"""
        if cond == TRUE:
            return True
        if cond == FALSE:
            return False
        k = cond[0]
        if k == 'le':
            return self.proves_le0(cond[1])
        if k == 'eq0':
            return self.proves_le0(cond[1]) and self.proves_le0(scale(cond[1], -1))
        if k == 'not':
            c = cond[1]
            if c[0] == 'eq0':
                l = c[1]
                if any(q == l or q == scale(l, -1) for q in self.ne):
                    return True
                return self.proves_le0(add(l, 1)) or self.proves_le0(add(1, l, -1))
            return self.facts.get(c) is False
        if k == 'and':
            return all(self.proves(x) for x in cond[1:])
        if k == 'or':
            return any(self.proves(x) for x in cond[1:])
        return self.facts.get(cond) is True

    def truth(self, cond):
        if self.proves(cond):
            return True
        if self.proves(neg(cond)):
            return False
        return None

    def assume(self, cond):
        """Add the condition; returns False when it contradicts the store."""
        if self.proves(neg(cond)) or cond == FALSE:
            return False
        if cond == TRUE or self.proves(cond):
            return True
        k = cond[0]
        if k == 'le':
            self.le.append(lin(cond[1]))
        elif k == 'eq0':
            self.le.append(lin(cond[1]))
            self.le.append(lin(scale(cond[1], -1)))
        elif k == 'not' and cond[1][0] == 'eq0':
            self.ne.append(cond[1][1])
        elif k == 'not':
            self.facts[cond[1]] = False
        elif k == 'and':
            for x in cond[1:]:
                if not self.assume(x):
                    return False
        else:
            self.facts[cond] = True
        return True

    def same(self, a, b):
        """Certainly equal terms (structure with provably equal integers)."""
        if a == b:
            return True
        ia = isinstance(a, int) or (isinstance(a, tuple) and a and a[0] == 'lin')
        ib = isinstance(b, int) or (isinstance(b, tuple) and b and b[0] == 'lin')
        if ia or ib:
            try:
                return self.proves(eq(a, b))
            except Exception:
                return False
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if len(a) == len(b) and a[0] == b[0] and isinstance(a[0], str):
                if all(self.same(x, y) for x, y in zip(a[1:], b[1:])):
                    return True
            elif len(a) == len(b) and not isinstance(a[0], str):
                if all(self.same(x, y) for x, y in zip(a, b)):
                    return True
            return self.proves(eq(a, b))
        return False

    def substitute(self, m):
        self.le = [lin(subst(mk(c, d), m)) for c, d in self.le]
        self.le = [(c, d) for c, d in self.le if d]
        self.ne = [subst(q, m) for q in self.ne]
        self.facts = {subst(k, m): v for k, v in self.facts.items()}

    # ------------------------------------------------------------ emptiness
    def feasible(self, extra=(), limit=4000):
        """Emptiness of the polyhedron of bounds (Fourier-Motzkin projection with
        integer tightening).  True: points remain; False: empty; None: gave up."""
        o = self.copy()
        for c in extra:
            if not o.assume(c):
                return False
        nes = list(o.ne)

        def go(rows, i):
            if i == len(nes):
                return empty_test(rows, limit)
            best = False
            for l in (add(nes[i], 1), add(1, nes[i], -1)):
                r = go(rows + [lin(l)], i + 1)
                if r is True:
                    return True
                if r is None:
                    best = None
            return best
        if len(nes) > 6:
            nes = nes[:6]
        rows = list(o.le)
        atoms = set()
        for c, d in rows:
            atoms |= set(d)
        for q in nes:
            atoms |= set(lin(q)[1])
        for a in atoms:
            rows += o._implicit(a)
        return go(rows, 0)


def empty_test(rows, limit):
    from math import gcd
    work = {}

    def put(w, c, d):
        d = {k: v for k, v in d.items() if v}
        if not d:
            return c <= 0
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            c = -((-c) // g)
            d = {k: v // g for k, v in d.items()}
        key = frozenset(d.items())
        if key not in w or w[key] < c:
            w[key] = c
        return True
    for c, d in rows:
        if not put(work, c, d):
            return False
    while work:
        cnt = {}
        for key in work:
            for a, v in key:
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if v > 0 else (p, n + 1)
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], repr(x)))
        pos, neg_, rest = [], [], {}
        for key, c in work.items():
            d = dict(key)
            v = d.get(a, 0)
            if v > 0:
                pos.append((c, d))
            elif v < 0:
                neg_.append((c, d))
            else:
                rest[key] = c
        if len(pos) * len(neg_) + len(rest) > limit:
            return None
        for c1, d1 in pos:
            for c2, d2 in neg_:
                m1, m2 = -d2[a], d1[a]
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + m1 * v
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + m2 * v
                if not put(rest, m1 * c1 + m2 * c2, d):
                    return False
        work = rest
    return True
