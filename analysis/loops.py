"""Loop summaries from one generic iteration.

Iteration number `k` is an opaque atom.  Iterators stand at position `k`,
integer variables that change by a constant stand at `start + delta*k`, index
tables are replaced by a recorder of the slot operations of one iteration.  The
loop's result is the recorded operation generalised over k = 0..N-1, under the
side conditions that make that generalisation valid.
"""
from terms import *
from absint import State, Undecided, V, pc, pc_and, pc_inverse, Interp


# ---------------------------------------------------------------- iterators
def it_len(I, st, it):
    k = it[1]
    if k == 'range':
        return sub(it[3], it[2])
    if k == 'rangefrom':
        return None
    if k in ('slice', 'slicemut'):
        return I.ref_len(st, it[2])
    if k == 'vals':
        return I.seq_len(it[2])
    if k == 'zip':
        a, b = it_len(I, st, it[2]), it_len(I, st, it[3])
        if a is None:
            return b
        if b is None:
            return a
        if st.ord.proves(le(a, b)):
            return a
        if st.ord.proves(le(b, a)):
            return b
        return ('min', a, b)
    if k in ('rev', 'enum', 'map', 'copied'):
        return it_len(I, st, it[2])
    if k == 'skip':
        n = it_len(I, st, it[2])
        return None if n is None else sub(n, it[3])
    if k == 'take':
        n = it_len(I, st, it[2])
        if n is None or st.ord.proves(le(it[3], n)):
            return it[3]
        return n if st.ord.proves(le(n, it[3])) else ('min', n, it[3])
    if k == 'run':
        return sub(it[4], it[3])
    if k == 'tabmut':
        return I.tab_len(I.load(st, it[2]))
    if k == 'opaque':
        return ('len', it)
    raise Undecided('iterator ' + k)


def it_elem(I, st, it, k, c):
    """[(state, element)] of iterator `it` at position k."""
    kind = it[1]
    if kind in ('range', 'rangefrom'):
        return [(st, add(it[2], k))]
    if kind in ('slice', 'slicemut'):
        r = it[2]
        if isinstance(r, tuple) and r[0] == 'ref':
            return [(st, ('ref', r[1], I.path_idx(r[2], k)))]
        return [(st, ('eref', r, k))]
    if kind == 'vals':
        return [(st, I.seq_get(st, it[2], k))]
    if kind == 'zip':
        out = []
        for s, a in it_elem(I, st, it[2], k, c):
            for s2, b in it_elem(I, s, it[3], k, c):
                out.append((s2, tup(a, b)))
        return out
    if kind == 'rev':
        n = it_len(I, st, it[2])
        if n is None:
            raise Undecided('rev of infinite')
        return it_elem(I, st, it[2], sub(sub(n, 1), k), c)
    if kind == 'skip':
        return it_elem(I, st, it[2], add(k, it[3]), c)
    if kind == 'take':
        return it_elem(I, st, it[2], k, c)
    if kind == 'enum':
        return [(s, tup(add(it[3], k), a)) for s, a in it_elem(I, st, it[2], k, c)]
    if kind == 'copied':
        return [(s, I.load(s, a)) for s, a in it_elem(I, st, it[2], k, c)]
    if kind == 'map':
        out = []
        for s, a in it_elem(I, st, it[2], k, c):
            out += I.call_value(s, c, it[3], [a])
        return out
    if kind == 'opaque':
        return [(st, ('item', it, k))]
    if kind == 'run':
        r = ('ref', it[2][1], I.path_idx(it[2][2], sub(sub(it[4], 1), k) if it[6] else add(it[3], k)))
        return [(st, I.load(st, r) if it[5] == 'own' else r)]
    raise Undecided('iterator element ' + kind)


def has_kind(it, kind):
    return isinstance(it, tuple) and it and it[0] == 'it' and (
        it[1] == kind or any(has_kind(x, kind) for x in it[2:]))


def map_val(v, f):
    """Apply f to iterator/table values nested in aggregates."""
    if isinstance(v, tuple) and v:
        if v[0] in ('it', 'itk', 'itone', 'tab', 'gtab'):
            return f(v)
        if v[0] == 'agg':
            return ('agg', v[1], v[2], v[3], tuple((n, map_val(x, f)) for n, x in v[4]))
    return v


def next_model(I, st, args, c):
    """Iterator::next on the iterator behind args[0]."""
    ref = args[0]
    it = I.load(st, ref)
    n = 0
    while isinstance(it, tuple) and it and it[0] == 'ref' and n < 4:
        ref, it, n = it, I.load(st, it), n + 1
    if is_agg(it, 'std::ops::Range'):
        it = ('it', 'range', fget(it, 'start'), fget(it, 'end'))
        out = []
        for s, t in st.fork(lt(it[2], it[3])):
            s = s.copy()
            if t:
                I.store(s, ref, agg('std::ops::Range', 0, 'Range',
                                    [('start', add(it[2], 1)), ('end', it[3])]))
                out.append((s, some(it[2])))
            else:
                out.append((s, NONE))
        return out
    if isinstance(it, tuple) and it and it[0] == 'itone':
        s = st.copy()
        if it[1] is None:
            return [(s, NONE)]
        I.store(s, ref, ('itone', None))
        return [(s, some(it[1]))]
    if isinstance(it, tuple) and it and it[0] == 'it':
        it = ('itk', it, 0)
    if isinstance(it, tuple) and it and it[0] == 'itk':
        base, k = it[1], it[2]
        if has_kind(base, 'tabmut'):
            raise Undecided('table sweep outside a plain loop')
        n = it_len(I, st, base)
        outs = []
        for s, t in (st.fork(lt(k, n)) if n is not None else [(st, True)]):
            s = s.copy()
            if t:
                for s2, e in it_elem(I, s, base, k, c):
                    s2 = s2.copy()
                    I.store(s2, ref, ('itk', base, add(k, 1)))
                    outs.append((s2, some(e)))
            else:
                outs.append((s, NONE))
        return outs
    return NotImplemented


# ---------------------------------------------------------------- summaries
def summarise(I, st, fr, header, body):
    """Recorder summary; loops that only read the tables are summarised with the
    tables as they are; loops that rebuild whole containers go through the
    owner's invariant (I.loop_invariant)."""
    np = len(I.panics)
    memo = I.__dict__.setdefault('inv_loops', {})
    key = (fr.fn['fn'], header)
    if key in memo:
        # covered by the invariant run, which assumed nothing about the entry state
        return []
    try:
        return summarise1(I, st, fr, header, body, True)
    except Undecided as e:
        if str(e) == 'budget':
            raise
        why = e
    del I.panics[np:]
    try:
        return summarise1(I, st, fr, header, body, False)
    except Undecided as e:
        if str(e) == 'budget':
            raise
    del I.panics[np:]
    inv = getattr(I, 'loop_invariant', None)
    if inv is not None:
        r = inv(I, st, fr, header, body)
        if r is not None:
            memo[key] = True
            return r
    raise why


def summarise1(I, st, fr, header, body, record):
    # a sweep over the index table itself
    for root, v in list(st.mem.items()):
        if root[0] == 'L' and root[1] == fr.id and isinstance(v, tuple) and v and v[0] == 'it' \
                and v[1] == 'tabmut' and drives(fr.fn, body, root[2]):
            return sweep_loop(I, st, fr, header, body, root, v)
    k = I.fresh('k')
    tabs = {}

    def gen(v):
        if v[0] == 'tab' and record:
            g = I.fresh('g')
            tabs[g] = v
            return ('gtab', g, ())
        return v
    s1 = st.copy()
    wrapped = []
    for root in list(s1.mem):
        v = s1.mem[root]
        if root[0] == 'L' and root[1] == fr.id and isinstance(v, tuple) and v \
                and v[0] in ('it', 'itk') and drives(fr.fn, body, root[2]):
            if not has_kind(v, 'tabmut'):
                s1.mem[root] = ('itk', v if v[0] == 'it' else shift_it(v[1], v[2]), k)
            continue
        if root[0] == 'L' and root[1] == fr.id and is_agg(v) and drives(fr.fn, body, root[2]) and wraps_iter(v):
            s1.mem[root] = map_val(v, lambda x: x if x[0] != 'it' else ('itk', x, k))
            wrapped.append(root)
            continue
        s1.mem[root] = map_val(v, gen)
    base = s1.copy()
    induct = {}
    for attempt in range(4):
        rets, exits, conts = I.run(s1, fr, header, body, header)
        changed = {}
        for c in conts:
            for root, v in base.mem.items():
                if root not in c.mem or c.mem[root] == s1.mem[root]:
                    continue
                changed.setdefault(root, []).append(c.mem[root])
        if any(len(changed.get(root, ())) != len(conts) for root in wrapped):
            raise Undecided('wrapped iterator not advanced')
        redo = False
        for root, vals in changed.items():
            v0 = s1.mem[root]
            if all(advanced(v0, v, k) for v in vals):
                continue
            if root in induct and induct[root][1] == 'aff':
                want = subst(v0, {k: add(k, 1)})
                if all(v == want for v in vals) and len(vals) == len(conts):
                    continue
                s1.mem[root] = I.fresh('hv')
                induct[root] = (v0, 'hv')
                redo = True
                continue
            if root in induct and induct[root][1] == 'hv':
                continue
            if root[0] != 'L':
                if only_tables(v0, vals):
                    continue
                raise Undecided('loop changes %r' % (root,))
            if len(vals) == len(conts) and numeric(v0) and all(
                    numeric(v) and is_int(sub(v, v0)) for v in vals):
                ds = {sub(v, v0) for v in vals}
                if len(ds) == 1:
                    s1.mem[root] = add(v0, scale(k, ds.pop()))
                    induct[root] = (v0, 'aff')
                    redo = True
                    continue
            if isinstance(v0, tuple) and v0 and v0[0] in ('itk',):
                raise Undecided('iterator advanced irregularly')
            s1.mem[root] = I.fresh('hv')
            induct[root] = (v0, 'hv')
            redo = True
        if not redo:
            break
    else:
        raise Undecided('loop not inductive')
    # which iterators / tables really took part
    logs = {}
    for c in conts:
        for root, v in c.mem.items():
            collect_tabs(v, logs)
    uses = {g: l for g, l in logs.items() if any(l)}
    out = []
    bounds = [upper_bounds(c, s1, k) for c in conts]
    lost = forgotten_errors(s1, base, conts)
    for s, b in exits + [(r, 'return') for r in rets]:
        lows = lower_bounds(s, s1, k)
        N = None
        for x in lows:
            if all(any(add(x, -1) == u or sub(u, add(x, -1)) == 0 for u in us) for us in bounds):
                N = x
                break
        if N is not None:
            # loop ran to exhaustion: k = N (if N >= 0, else no iteration at all)
            for s2, t in s_fork_nonneg(s, N, k):
                nn = N if t else 0
                s2.trace.append(('scan', k, nn, [(c.ord, c.variants) for c in conts], fr.fn['fn']))
                s2.trace.append(('conts', k, nn, conts, s1))
                for ev in lost:
                    s3 = s2.copy()
                    s3.events += ev
                    finish(I, s3, k, nn, tabs, uses, st, out, b, full=True, where=fr)
                finish(I, s2, k, nn, tabs, uses, st, out, b, full=True, where=fr)
        else:
            if uses:
                # leaving in the middle of table edits: only allowed if the
                # table is unchanged so far, i.e. not decided here
                s2 = s.copy()
                s2.notes.append('early exit from a loop that edits the index')
                finish(I, s2, k, None, tabs, uses, st, out, b, full=False, where=fr)
            else:
                finish(I, s.copy(), k, None, tabs, uses, st, out, b, full=False, where=fr)
    return out


def forgotten_errors(s1, base, conts):
    """Errors of user code that an iteration leaves behind: the next iteration starts and
    nothing that outlives the iteration holds the error."""
    out = []
    for c in conts:
        ev = [e for e in c.events[len(s1.events):] if e['kind'] == 'user-err']
        ev = [e for e in ev if not any(r in c.mem and mentions(c.mem[r], e['ret']) for r in base.mem)]
        if ev and ev[-1:] not in out:
            out.append(ev[-1:])
    return out


def s_fork_nonneg(s, N, k):
    # the state `s` carries facts about k; forget them, keep the rest
    s = s.copy()
    t = s.ord.truth(le(0, N))
    s0 = s.copy()
    s0.ord.le = [(c, d) for c, d in s0.ord.le if k not in d]
    t = s0.ord.truth(le(0, N))
    if t is not None:
        return [(s, t)]
    out = []
    for cond, tr in ((le(0, N), True), (lt(N, 0), False)):
        a = s.copy()
        if a.ord.assume(cond):
            out.append((a, tr))
    return out


def shift_it(it, n):
    if n == 0:
        return it
    if it[1] in ('range', 'rangefrom'):
        return it[:2] + (add(it[2], n),) + it[3:]
    raise Undecided('iterator already advanced')


def numeric(v):
    return is_int(v) or (isinstance(v, tuple) and v and v[0] not in (
        'agg', 'ref', 'it', 'itk', 'tab', 'gtab', 'bool', 'le', 'eq0', 'not', 'seq', 'ovr', 'const'))


def wraps_iter(v):
    """Iterator type around exactly one iterator."""
    n = []
    map_val(v, lambda x: n.append(x) or x)
    return len(n) == 1 and n[0][0] == 'it' and not has_kind(n[0], 'tabmut')


def advanced(v0, v, k):
    """v is v0 with iterators advanced by one / table logs extended."""
    if v0 == v:
        return True
    if isinstance(v0, tuple) and v0 and v0[0] == 'itk' and isinstance(v, tuple) and v and v[:2] == ('it', 'run') \
            and v0[1][:2] == ('it', 'run') and not v0[1][6]:
        return v == v0[1][:3] + (add(v0[1][3], add(k, 1)),) + v0[1][4:]
    if isinstance(v0, tuple) and isinstance(v, tuple) and v0 and v and v0[0] == v[0]:
        if v0[0] == 'itk':
            return v0[1] == v[1] and v[2] == add(k, 1)
        if v0[0] == 'gtab':
            return v0[1] == v[1]
        if v0[0] == 'agg' and len(v0[4]) == len(v[4]):
            return all(a[0] == b[0] and advanced(a[1], b[1], k) for a, b in zip(v0[4], v[4]))
    return False


def only_tables(v0, vals):
    return False


def drives(fn, body, local):
    """Is `local` the iterator advanced in this loop?"""
    for b in body:
        for s in fn['blocks'][b]['s']:
            if s[0] == '=' and s[2][0] == 'ref' and s[2][2][0] == local and not s[2][2][1]:
                return True
    return False


def collect_tabs(v, logs):
    if isinstance(v, tuple) and v:
        if v[0] == 'gtab':
            logs.setdefault(v[1], []).append(v[2])
        elif v[0] == 'agg':
            for _, x in v[4]:
                collect_tabs(x, logs)


def new_bounds(s, s1):
    old = [(c, frozenset(d.items())) for c, d in s1.ord.le]
    for c, d in s.ord.le:
        if (c, frozenset(d.items())) not in old:
            yield c, d


def upper_bounds(s, s1, k):
    out = []
    for c, d in s.ord.le:
        if d.get(k, 0) > 0:
            q = d[k]
            rest = {t: v for t, v in d.items() if t != k}
            if q == 1:
                out.append(scale(mk(c, rest), -1))
    return out


def lower_bounds(s, s1, k):
    out = []
    for c, d in s.ord.le:
        if d.get(k, 0) == -1:
            rest = {t: v for t, v in d.items() if t != k}
            out.append(mk(c, rest))
    return out


def finish(I, s, k, N, tabs, uses, st0, out, b, full, where):
    """Replace recorder tables by their final value and k by N."""
    results = [(s, {})]
    for g, tab in tabs.items():
        nres = []
        for s1, m in results:
            if g not in uses:
                m2 = dict(m)
                m2[g] = tab
                nres.append((s1, m2))
            elif full:
                lg = [strip_log(l) for l in uses[g]]
                if any(x != lg[0] for x in lg):
                    raise Undecided('iterations edit the index differently')
                for s2, t2 in apply_log(I, s1, tab, lg[0], k, N, g, where):
                    m2 = dict(m)
                    m2[g] = t2
                    nres.append((s2, m2))
            else:
                m2 = dict(m)
                m2[g] = ('unk', g)
                nres.append((s1, m2))
        results = nres
    for s1, m in results:
        s1 = s1.copy()

        def back(v):
            if v[0] == 'gtab':
                return m.get(v[1], v)
            if v[0] == 'itk' and not full:
                return v
            return v
        for root in list(s1.mem):
            s1.mem[root] = map_val(s1.mem[root], back)
        if full:
            # facts about k are replaced by k = N
            s1.ord.le = [(c, d) for c, d in s1.ord.le if k not in d]
            s1.substitute({k: N})
        out.append((s1, b))


def strip_log(log):
    return tuple(op for op in log if op[0] != 'find')


def apply_log(I, st, tab, log, k, N, g, fr):
    """[(state, table)] after k = 0..N-1 iterations of the recorded edit."""
    where = '%s' % (fr.fn['file'],)
    if st.ord.proves(le(N, 0)):
        return [(st, tab)]
    if tab[0] != 'tab':
        raise Undecided('nested table recorder')
    if len(log) != 1:
        raise Undecided('several index edits per iteration')
    op = log[0]
    L0 = I.tab_len(tab)
    glen = ('len', ('gtab', g))
    if op[0] == 'ins':
        h, val = subst(op[1], {glen: add(L0, k)}), subst(op[2], {glen: add(L0, k)})
        e = elem_of_hash(h)
        if e is None:
            raise Undecided('hash of inserted index')
        base, idx = e
        ck, dk = lin(idx)
        if dk.get(k, 0) not in (1, -1):
            raise Undecided('insertion order')
        rest = mk(ck, {t: v for t, v in dk.items() if t != k})
        if dk[k] == 1:
            kv = sub(V, rest)
            p = pc(base, rest, add(rest, N), subst(val, {k: kv}), subst(h, {k: kv}))
        else:
            kv = sub(rest, V)
            p = pc(base, add(sub(rest, N), 1), add(rest, 1), subst(val, {k: kv}), subst(h, {k: kv}))
        return [(st, ('tab', tab[1], tab[2] + (p,)))]
    if op[0] in ('del', 'upd'):
        X = op[1]
        h = op[3] if op[0] == 'upd' else op[2]
        c, d = lin(X)
        q = d.get(k, 0)
        if q not in (1, -1):
            raise Undecided('stride of index edits')
        x0 = mk(c, {t: v for t, v in d.items() if t != k})
        lo, hi = (x0, add(x0, N)) if q == 1 else (add(sub(x0, N), 1), add(x0, 1))
        if op[0] == 'upd':
            delta = sub(op[2], X)
            if mentions(delta, k):
                raise Undecided('non-uniform shift')
        keep, moved = [], []
        for p in tab[2]:
            if p[0] == 'one':
                t = st.ord.truth(('and', le(lo, p[2]), lt(p[2], hi)))
                inr = st.ord.proves(le(lo, p[2])) and st.ord.proves(lt(p[2], hi))
                outr = st.ord.proves(lt(p[2], lo)) or st.ord.proves(le(hi, p[2]))
                if not inr and not outr:
                    raise Undecided('edited range vs single slot')
                if outr:
                    keep.append(p)
                else:
                    hk = subst(h, {k: sub(p[2], x0) if q == 1 else sub(x0, p[2])})
                    if not st.ord.same(hk, p[1]):
                        st = st.copy()
                        st.issues.append(('wrong-hash', 'index slot is looked up with the hash of '
                                          'another entry', fr.fn['fn']))
                    if op[0] == 'upd':
                        moved.append(('one', p[1], add(p[2], delta)))
                continue
            val = p[3]
            for part in (pc_and(p, lt(val, lo)), pc_and(p, le(hi, val))):
                if part:
                    keep.append(part)
            mid = pc_and(pc_and(p, le(lo, val)) or p, lt(val, hi))
            if mid is not None and feasible(st, mid):
                kk = sub(val, x0) if q == 1 else sub(x0, val)
                hk = subst(h, {k: kk})
                s2 = st.copy()
                for cnd in mid[2]:
                    s2.ord.assume(cnd)
                if not s2.ord.same(hk, p[4]):
                    st = st.copy()
                    st.issues.append(('wrong-hash', 'index slots are looked up with the hash of '
                                      'another entry', fr.fn['fn']))
                if op[0] == 'upd':
                    moved.append(('pc', mid[1], mid[2], add(val, delta), mid[4]))
        if op[0] == 'upd':
            # no edit may create a position that another slot still holds
            kk = I.fresh('k')         # any iteration, not the exhausted counter
            Y = subst(op[2], {k: kk})
            for p in tab[2]:
                s2 = st.copy()
                okk = s2.ord.assume(lt(kk, N)) and s2.ord.assume(le(0, kk))
                if not okk:
                    continue
                if p[0] == 'one':
                    pv = p[2]
                else:
                    pv = p[3]
                    if not all(s2.ord.assume(cnd) for cnd in p[2]):
                        continue
                if not s2.ord.assume(eq(pv, Y)):
                    continue
                # slot with value Y exists: it must be one already moved (X(j), j<k)
                j = sub(pv, x0) if q == 1 else sub(x0, pv)
                # eliminate V through Y: j as function of k
                jj = sub(Y, x0) if q == 1 else sub(x0, Y)
                if s2.ord.proves(lt(jj, kk)) and s2.ord.proves(le(0, jj)):
                    continue
                # j<0: outside the edited range
                s3 = s2.copy()
                bad = False
                for cond in (le(kk, jj), lt(jj, 0)):
                    s3 = s2.copy()
                    if s3.ord.assume(cond):
                        bad = True
                if bad:
                    st = st.copy()
                    st.issues.append(('duplicate-index', 'an index is moved onto a position another '
                                      'index still holds', fr.fn['fn']))
                    break
        missing = uncovered(I, st, tab, lo, hi)
        if missing:
            st = st.copy()
            st.issues.append(('missing-index', 'index edits address positions the index does not '
                              'hold', fr.fn['fn']))
        return [(st, norm_tab(st, ('tab', tab[1], tuple(keep + moved))))]
    raise Undecided('index edit ' + op[0])


def uncovered(I, st, tab, lo, hi):
    """Is there a position in [lo,hi) that no slot of the table holds?"""
    x = I.fresh('x')
    s = st.copy()
    if not s.ord.assume(le(lo, x)) or not s.ord.assume(lt(x, hi)):
        return False
    try:
        return any(i is None for _, i, _ in I.members(s, tab, x))
    except Undecided:
        return False


def elem_of_hash(h):
    """('fld', elem(base, idx), 'hash') possibly wrapped -> (base, idx)."""
    t = h
    while isinstance(t, tuple) and t:
        if t[0] == 'fld':
            if isinstance(t[1], tuple) and t[1] and t[1][0] == 'elem':
                return t[1][1], t[1][2]
            t = t[1]
        elif t[0] == 'ovr':
            t = t[1]
        elif t[0] == 'lin' and len(t[2]) == 1 and t[1] == 0:
            t = t[2][0][0]
        elif t[0] == 'elem':
            return t[1], t[2]
        else:
            return None
    return None


def feasible(st, p):
    s = st.copy()
    return all(s.ord.assume(c) for c in p[2])


def norm_tab(st, tab):
    """Drop empty pieces and redundant bounds."""
    out = []
    for p in tab[2]:
        if p[0] != 'pc':
            out.append(p)
            continue
        if not feasible(st, p):
            continue
        conds = list(p[2])
        i = 0
        while i < len(conds):
            s = st.copy()
            for j, c in enumerate(conds):
                if j != i:
                    s.ord.assume(c)
            if len(conds) > 1 and s.ord.proves(conds[i]):
                del conds[i]
            else:
                i += 1
        out.append(('pc', p[1], tuple(conds), p[3], p[4]))
    return ('tab', tab[1], tuple(out))


# ---------------------------------------------------------------- table sweeps
def v_conditions(s, s1):
    """Conditions learned in s beyond s1: (about V, not about V)."""
    about, other = [], []
    for c, d in new_bounds(s, s1):
        (about if V in d else other).append(le0(mk(c, d)))
    for q in s.ord.ne:
        if q not in s1.ord.ne:
            n = ('not', ('eq0', q))
            (about if mentions(q, V) else other).append(n)
    for f, b in s.ord.facts.items():
        if f not in s1.ord.facts:
            t = f if b else ('not', f)
            (about if mentions(f, V) else other).append(t)
    return about, other


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


def sweep_pieces(I, st, tab, run):
    """run(state, value) -> [(state, new value or None)]; new table."""
    new = []
    for p in tab[2]:
        if p[0] == 'one':
            res = run(st.copy(), p[2])
            if len(res) > 1:
                a, o = v_conditions(res[0][0], st)
                if a + o:
                    raise NeedFork((a + o)[0])
                raise Undecided('sweep decision')
            for s, v in res:
                if v is not None:
                    new.append(('one', p[1], v))
            continue
        s0 = st.copy()
        if not all(s0.ord.assume(c) for c in p[2]):
            continue
        for s, v in run(s0, p[3]):
            about, other = v_conditions(s, s0)
            if other:
                raise NeedFork(other[0])
            q = p
            parts = [()]
            for c in about:
                if c[0] == 'not' and c[1][0] == 'eq0':
                    l = c[1][1]
                    parts = [x + (y,) for x in parts for y in (le0(add(l, 1)), le0(add(1, l, -1)))]
                else:
                    parts = [x + (c,) for x in parts]
            for part in parts:
                q = ('pc', p[1], p[2] + part, v, p[4])
                if v is not None and feasible(st, q):
                    new.append(q)
    return norm_tab(st, ('tab', tab[1], tuple(new)))


def with_forks(st, f):
    """Run f(state) splitting the state on demand."""
    out, work = [], [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 64:
            raise Undecided('too many partitions')
        try:
            out.append((s, f(s)))
        except NeedFork as e:
            for s2, _ in s.fork(e.cond):
                work.append(s2)
    return out


def sweep_loop(I, st, fr, header, body, itroot, it):
    ref = it[2]
    tab = I.load(st, ref)
    if tab[0] != 'tab':
        raise Undecided('sweep over unknown table')

    def do(s):
        def run(s0, val):
            s1 = s0.copy()
            I.uid += 1
            slot = ('T', I.uid)
            s1.mem[slot] = val
            s1.mem[itroot] = ('itone', ('ref', slot, ()))
            rets, exits, conts = I.run(s1, fr, header, body, header)
            if exits or rets:
                raise Undecided('sweep left early')
            out = []
            for c in conts:
                for r, v in c.mem.items():
                    if r[0] in ('O', 'D') and s1.mem.get(r) != v:
                        raise Undecided('sweep changes other state')
                out.append((c, c.mem[slot]))
            return out
        return sweep_pieces(I, s, tab, run)
    out = []
    for s, t2 in with_forks(st, do):
        s = s.copy()
        I.store(s, ref, t2)
        s.mem[itroot] = ('itone', None)
        rets, exits, conts = I.run(s, fr, header, body, header)
        out += exits
    return out


def retain(I, st, ref, closure, c):
    tab = I.load(st, ref)
    if tab[0] != 'tab':
        raise Undecided('retain on unknown table')

    def do(s):
        def run(s0, val):
            s1 = s0.copy()
            I.uid += 1
            slot = ('T', I.uid)
            s1.mem[slot] = val
            out = []
            for s2, r in I.call_value(s1, c, closure, [('ref', slot, ())]):
                for s3, keep in s2.fork(r):
                    out.append((s3, s3.mem[slot] if keep else None))
            return out
        return sweep_pieces(I, s, tab, run)
    out = []
    for s, t2 in with_forks(st, do):
        s = s.copy()
        I.store(s, ref, t2)
        out.append((s, UNIT))
    return out


def search_model(kind):
    """Iterator::{any, all, position, find}: one generic element, then either a hit or a completed scan."""
    def f(I, st, args, c):
        ref = args[0]
        it = I.load(st, ref) if isinstance(ref, tuple) and ref and ref[0] == 'ref' else ref
        if is_agg(it, 'std::ops::Range'):
            it = ('it', 'range', fget(it, 'start'), fget(it, 'end'))
        if not (isinstance(it, tuple) and it and it[0] == 'it') or has_kind(it, 'tabmut'):
            return NotImplemented
        n = it_len(I, st, it)
        if n is None:
            return NotImplemented
        k = I.fresh('k')
        s = st.copy()
        hits, misses = [], []
        if s.ord.assume(le(0, k)) and s.ord.assume(lt(k, n)):
            for s1, e in it_elem(I, s, it, k, c):
                a = e
                if kind == 'find':
                    s1 = s1.copy()
                    root = ('T', I.fresh('t'))
                    s1.mem[root] = e
                    a = ('ref', root, ())
                for s2, b in I.call_value(s1, c, args[1], [a]):
                    for s3, t in s2.fork(I.truthy(b)):
                        (hits if t != (kind == 'all') else misses).append((s3, e))
        out = []
        for s1, e in hits:
            r = {'any': True, 'all': False}.get(kind)
            if kind == 'position':
                r = some(k)
            elif kind == 'find':
                r = some(e)
            else:
                r = ('bool', r)
            out.append((s1, r))
        for s2, t in s_fork_nonneg(st, n, k):
            s2 = s2.copy()
            nn = n if t else 0
            conts = [x for x, _ in misses]
            s2.trace.append(('scan', k, nn, [(x.ord, x.variants) for x in conts], c.fr.fn['fn']))
            s2.trace.append(('conts', k, nn, conts, s))
            r = {'any': ('bool', False), 'all': ('bool', True)}.get(kind, NONE)
            for ev in forgotten_errors(s, s, conts):
                s3 = s2.copy()
                s3.events += ev
                out.append((s3, r))
            out.append((s2, r))
        return out
    return f
