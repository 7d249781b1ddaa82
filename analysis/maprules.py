"""Rules over the abstract exit states of the ordered map's operations."""
from terms import *
from absint import Undecided, V, pc_inverse
from rmap import norm_hash, E0, N, CORE
import models


def nh(I, st, e):
    return norm_hash(settle(I, st, norm_hash(I.field(st, I.field(st, e, 'hash'), '0'))))


def settle(I, st, t):
    """An order-preserving filter that kept everything is the identity."""
    if isinstance(t, tuple) and t:
        if t[0] == 'elem' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'filtered':
            if st.ord.proves(eq(('len', t[1]), I.seq_len(t[1][1]))):
                return settle(I, st, I.seq_get(st, t[1][1], t[2]))
        if t[0] in ('fld', 'elem'):
            n = (t[0], settle(I, st, t[1])) + t[2:]
            if t[0] == 'fld' and n[1] != t[1]:
                return I.field(st, n[1], t[2])
            return n
    return t


def sure(s):
    return s.ord.feasible() is True


def coherence(I, st, core, hole=None):
    """[(kind, message)]: definite disagreements between index and entries."""
    out = []
    entries, tab, linear = fget(core, 'entries'), fget(core, 'indices'), fget(core, 'linear')
    if not (isinstance(entries, tuple) and entries and entries[0] == 'seq'):
        raise Undecided('entries value')
    if not (isinstance(tab, tuple) and tab and tab[0] == 'tab'):
        raise Undecided('index value')
    if linear not in (TRUE, FALSE):
        raise Undecided('mode flag')
    n = I.seq_len(entries)
    if linear == TRUE:
        for p in tab[2]:
            s = st.copy()
            if p[0] == 'pc' and not all(s.ord.assume(c) for c in p[2]):
                continue
            if sure(s):
                out.append(('linear-table', 'map is marked as scanning its entries but its index still holds slots'))
        return out
    # every position is filed exactly once under its own hash
    off = 0
    for seg in entries[1]:
        ln = I.seg_len(seg)
        x = I.fresh('x')
        s = st.copy()
        feas = s.ord.assume(le(off, x)) and s.ord.assume(lt(x, add(off, ln)))
        if feas and hole is not None:
            feas = s.ord.assume(neg(eq(x, hole)))
        if feas:
            e = I.seg_elem(seg, sub(x, off))
            for s2, i, inv in I.members(s, tab, x):
                if i is None:
                    if sure(s2):
                        out.append(('unindexed', 'an entry has no index slot'))
                    continue
                want = nh(I, s2, e)
                own = settle(I, s2, norm_hash(I.pc_hash(tab[2][i], inv)))
                if not s2.ord.same(want, norm_hash(own)) and sure(s2):
                    out.append(('misfiled', "an entry's index slot is filed under the hash of another entry"))
                for q in tab[2][i + 1:]:
                    s3 = s2.copy()
                    if q[0] == 'one':
                        if not s3.ord.assume(eq(q[2], x)):
                            continue
                    else:
                        qi = pc_inverse(q, x)
                        if qi is None:
                            raise Undecided('piece inverse')
                        if not all(s3.ord.assume(subst(c, {V: qi})) for c in q[2]):
                            continue
                    if sure(s3):
                        out.append(('double-filed', 'an entry has two index slots'))
        off = add(off, ln)
    # every slot points at an entry
    for p in tab[2]:
        s = st.copy()
        if p[0] == 'pc':
            if not all(s.ord.assume(c) for c in p[2]):
                continue
            v = p[3]
        else:
            v = p[2]
        s.ord.assume(le(0, V)) if p[0] == 'pc' else None
        for bad in (le(n, v), lt(v, 0)):
            s2 = s.copy()
            if s2.ord.assume(bad) and sure(s2):
                out.append(('dangling', 'an index slot points past the last entry'))
        if hole is not None:
            s2 = s.copy()
            if s2.ord.assume(eq(v, hole)) and sure(s2):
                out.append(('dead-indexed', 'a deleted entry is still reachable through the index'))
    return dedup(out)


def dedup(xs):
    seen, out = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


# ---------------------------------------------------------------- comparing values
def seqs_differ(I, st, a, b, fields):
    """A definite difference between two segment lists, or None."""
    la, lb = I.seq_len(('seq', tuple(a))), I.seq_len(('seq', tuple(b)))
    if not st.ord.proves(eq(la, lb)):
        for c in (lt(la, lb), lt(lb, la)):
            s = st.copy()
            if s.ord.assume(c) and sure(s):
                return 'the number of entries is wrong'
    x = I.fresh('x')
    off = 0
    for sa in a:
        na = I.seg_len(sa)
        s = st.copy()
        if not (s.ord.assume(le(off, x)) and s.ord.assume(lt(x, add(off, na)))):
            off = add(off, na)
            continue
        ea = I.seg_elem(sa, sub(x, off))
        offb = 0
        for sb in b:
            nb = I.seg_len(sb)
            s2 = s.copy()
            if s2.ord.assume(le(offb, x)) and s2.ord.assume(lt(x, add(offb, nb))):
                eb = I.seg_elem(sb, sub(x, offb))
                for f in fields:
                    va, vb = part(I, s2, ea, f), part(I, s2, eb, f)
                    if not s2.ord.same(va, vb) and sure(s2):
                        return 'an entry ends up with the wrong %s' % f
            offb = add(offb, nb)
        off = add(off, na)
    return None


def part(I, st, e, f):
    if f == 'hash':
        return nh(I, st, e)
    return settle(I, st, I.field(st, settle(I, st, e), f))


def canon(I, st, v, self_root=('O', 'self')):
    """References into the map become positions; other references their target."""
    if isinstance(v, tuple) and v and v[0] == 'ref':
        if v[1] == self_root:
            path = [e for e in v[2]]
            pre, post = [], []
            for j, e in enumerate(path):
                if e[0] in ('idx', 'rng', 'slot'):
                    post = path[j:]
                    break
                pre.append(e)
            if post and post[0][0] == 'idx':
                return ('at', post[0][1]) + tuple(e[1] for e in post[1:] if e[0] == 'f')
            if post and post[0][0] == 'rng':
                return ('range', post[0][1], post[0][2])
            last = [e[1] for e in pre if e[0] == 'f']
            if last and last[-1] == 'entries':
                return ('range', 0, I.ref_len(st, v))
            if not last:
                w = I.load(st, v)
                if isinstance(w, tuple) and w and w[0] == 'seq':
                    return ('range', 0, I.seq_len(w))
            return ('self', last[-1] if last else '')
        try:
            return ('val', canon(I, st, I.load(st, v), self_root))
        except Undecided:
            return v
    if is_agg(v):
        return ('agg', v[1], v[2], v[3], tuple((n, canon(I, st, x, self_root)) for n, x in v[4]))
    return v


class Any:
    """Pattern: accepts what the function accepts."""

    def __init__(self, f):
        self.f = f


def mismatch(I, st, want, got):
    """Definite mismatch of a canonical return value with the expected pattern."""
    if isinstance(want, Any):
        return want.f(I, st, got)
    if is_agg(want):
        if not is_agg(got):
            if want[1] == '()' and not want[4] and not is_agg(got):
                return None
            return 'returned value has the wrong shape' if definite(got) else None
        if want[1] not in ('*',) and (want[1] != got[1] and want[1] != '()' or want[2] != got[2]):
            return 'returns %s where %s is expected' % (got[3], want[3])
        g = dict(got[4])
        for n, w in want[4]:
            if n not in g:
                return 'returned value has the wrong shape'
            m = mismatch(I, st, w, g[n])
            if m:
                return m
        return None
    if st.ord.same(want, got):
        return None
    if isinstance(want, tuple) and want and want[0] in ('bool', 'le', 'eq0', 'not'):
        t = st.ord.truth(want) if want[0] != 'bool' else want == TRUE
        g = st.ord.truth(got) if isinstance(got, tuple) and got and got[0] != 'bool' else got == TRUE
        if t is not None and t == g:
            return None
        if t is None or g is None:
            # compare under each truth of the expected condition
            for c, val in ((want, True), (neg(want), False)):
                s = st.copy()
                if not s.ord.assume(c):
                    continue
                g2 = s.ord.truth(got) if got not in (TRUE, FALSE) else got == TRUE
                if g2 is not None and g2 != val and sure(s):
                    return 'the returned truth value is wrong'
                if g2 is None:
                    return None
            return None
        return 'the returned truth value is wrong' if sure(st) else None
    if isinstance(want, tuple) and want and want[0] in ('at', 'range') and isinstance(got, tuple) and got \
            and got[0] == want[0] and len(got) == len(want):
        for w, g in zip(want[1:], got[1:]):
            if isinstance(w, str) or isinstance(g, str):
                if w != g:
                    return 'returns a reference to the %s instead of the %s' % (g, w)
            elif not st.ord.same(w, g) and sure(st):
                return 'returns a reference to the wrong position'
        return None
    if sure(st):
        return 'the returned value is wrong'
    return None


def definite(v):
    return not (isinstance(v, tuple) and v and v[0] in ('call', 'unk', 'as', 'in'))
