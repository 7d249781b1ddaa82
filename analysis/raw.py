"""Abstract interpretation of the hash table proper (hashbrown/src/raw).

On top of absint this adds: unwinding (every call into user code may panic, the
MIR clean-up edges and drop guards are followed to the `resume` exits), tag
classes (EMPTY / DELETED / FULL) for the control bytes, a ledger of the effects on
control bytes, counters and element slots, and loops cut at their header: one
generic iteration from an arbitrary header state, its effects kept as a segment.
"""
from terms import *
from absint import Interp, State, Undecided, natural_loops, Ctx
from mir import strip_generics
import models

W = 16
EMPTY, DELETED = ('EMPTY',), ('DELETED',)


class RState(State):
    __slots__ = ('eff', 'cls', 'extra')

    def __init__(self):
        State.__init__(self)
        self.eff = []
        self.cls = {}
        self.extra = {}

    def copy(self):
        s = RState()
        s.mem = dict(self.mem)
        s.ord = self.ord.copy()
        s.variants = dict(self.variants)
        s.events = list(self.events)
        s.cnt = dict(self.cnt)
        s.issues = list(self.issues)
        s.notes = list(self.notes)
        s.trace = list(self.trace)
        s.eff = list(self.eff)
        s.cls = dict(self.cls)
        s.extra = dict(self.extra)
        return s

    def assume(self, cond):
        c = self.copy()
        if not c.ord.assume(cond):
            return None
        if c.ord.ne:
            strengthen(c.ord)
        return c


def is_pa(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'pa'


def mirror_base(idx, mask):
    """i when idx is ((i - W) & mask) + W."""
    c, d = lin(idx)
    if c == W and len(d) == 1:
        (t, k), = d.items()
        if k == 1 and isinstance(t, tuple) and t[0] == 'BitAnd' and mask in t[1:]:
            o = t[2] if t[1] == mask else t[1]
            return add(o, W)
    return None


def ctrl(tid, i=0):
    return ('pa', ('ctrlp', tid), i)


INNER = 'raw::RawTableInner'


def inner(tid, mask=None, items=None, growth=None):
    return agg(INNER, 0, 'RawTableInner', [
        ('bucket_mask', ('mask', tid) if mask is None else mask), ('ctrl', ctrl(tid)),
        ('growth_left', ('gl', tid) if growth is None else growth),
        ('items', ('items', tid) if items is None else items)])


def outer(tid):
    return agg('raw::RawTable', 0, 'RawTable', [('table', inner(tid)), ('marker', ('PhantomData',))])


def strengthen(o):
    """x != 0 over the naturals is x >= 1."""
    keep = []
    for q in o.ne:
        for l in (q, scale(q, -1)):
            if o.proves_le0(scale(l, -1)):
                o.le.append(lin(add(1, l, -1)))
                break
        else:
            keep.append(q)
    o.ne = keep


REQUEST = {('arg', x) for x in ('capacity', 'additional', 'cap', 'buckets', 'min_size', 'min_capacity', 'size',
                              'reserve', 'new_items')}


def requested(t):
    """Linear in (or a product of) sizes the caller asked for."""
    if t in REQUEST:
        return True
    if isinstance(t, tuple) and t:
        if t[0] == 'lin':
            return any(k > 0 and requested(a) for a, k in t[2])
        if t[0] in ('mul', 'Mul', 'Shl', 'Div', 'BitAnd'):
            return any(requested(x) for x in t[1:])
    return False


class RInterp(Interp):
    MAX_DEPTH = 30

    def __init__(self, prog, models_, opaque=None, budget=200000):
        Interp.__init__(self, prog, models_, opaque, budget)
        self.pend = []
        self.viol = []
        self.opts = ()
        self.loops_seen = {}
        self.drops = {}
        self.wraps = []
        self.restype = {}
        self.checked = False
        for f in prog.fns.values():
            p = strip_generics(f['path'])
            if p.endswith(' as std::ops::Drop>::drop') and p.startswith('<'):
                adt = p[1:].split('<')[0].split(' as ')[0]
                self.drops[adt] = f

    # ------------------------------------------------------------ control bytes
    def tag_at(self, st, tid, idx):
        """Tag value of slot `idx` (or of a mirrored byte) after the effects so far."""
        n = 0
        for e in reversed(st.eff):
            if e[0] == 'tag' and e[1] == tid:
                if st.ord.same(e[2], idx):
                    return e[3]
                if st.ord.proves(neg(eq(e[2], idx))):
                    continue
                n += 1
                return ('tag', tid, idx, ('after', len(st.eff)))
            if e[0] == 'fill' and e[1] == tid:
                return e[2]
            if e[0] == 'copyall' and e[2] == tid:
                b = st.copy()
                b.eff = st.eff[:st.eff.index(e)]
                return self.tag_at(b, e[1], idx)
            if e[0] in ('cut', 'loop', 'bulk') and (e[1] == '*' or tid in e[1]):
                return ('tag', tid, idx, e[2])
        return ('tag', tid, idx, 0)

    def classify(self, st, tag):
        """[(state, class)] with class in 'E','D','F'."""
        cs = self.cls_of(st, tag)
        if len(cs) == 1:
            return [(st, cs)]
        out = []
        for c in cs:
            s = st.copy()
            s.cls[tag] = c
            if isinstance(tag, tuple) and tag[0] == 'tag' and tag[3] == 0:
                # the counters of a sound table account for this slot
                t = tag[1]
                need = {'F': le(1, ('items', t)), 'E': TRUE,
                        'D': le(add(add(('items', t), ('gl', t)), 1), ('cap', ('mask', t)))}[c]
                if not s.ord.assume(need):
                    continue
            out.append((s, c))
        return out

    def cls_of(self, st, tag):
        if tag == EMPTY or tag == 255:
            return 'E'
        if tag == DELETED or tag == 128:
            return 'D'
        if isinstance(tag, tuple) and tag[0] == 'fulltag' or is_int(tag) and 0 <= tag < 128:
            return 'F'
        if is_int(tag):
            return '!'
        c = st.cls.get(tag, 'EDF')
        if 'D' in c and isinstance(tag, tuple) and tag[0] == 'tag' and ('nodel', tag[1], tag[3]) in st.extra:
            c = c.replace('D', '')
        return c

    def epoch(self, st, tid, upto=None):
        """Version of the control bytes of a table."""
        ep = 0
        for i, e in enumerate(st.eff[:upto]):
            if e[0] in ('tag', 'mirror', 'fill') and e[1] == tid or e[0] in ('bulk', 'cut', 'loop') and tid in e[1] \
                    or e[0] == 'copyall' and e[2] == tid:
                ep = i + 1
        return ep

    def no_deleted(self, st, tid):
        """No slot of the table is marked deleted (since it was last cleared)."""
        for e in reversed(st.eff):
            if e[0] == 'tag' and e[1] == tid and 'D' in self.cls_of(st, e[3]):
                return False
            if e[0] == 'fill' and e[1] == tid:
                return self.cls_of(st, e[2]) == 'E'
            if e[0] in ('cut', 'loop') and tid in e[1]:
                return ('nodel', tid, e[2]) in st.extra
            if e[0] in ('bulk', 'copyall', 'convert') and (tid in e[1] or tid in e[1:3]):
                return False
        return False

    def root(self, st, r):
        if r[0] == 'D' and is_pa(r[1]) and r[1][1][0] == 'ctrlp':
            return self.tag_at(st, r[1][1][1], r[1][2])
        if r[0] == 'D' and isinstance(r[1], tuple) and r[1] and r[1][0] == 'eptr':
            return ('item', r[1][1], r[1][2])
        return Interp.root(self, st, r)

    def write(self, st, root, path, val):
        if root[0] == 'D' and is_pa(root[1]) and root[1][1][0] == 'ctrlp':
            if path:
                raise Undecided('store into part of a control byte')
            tid, idx = root[1][1][1], root[1][2]
            self.put_tag(st, tid, idx, val)
            return
        Interp.write(self, st, root, path, val)

    def put_tag(self, st, tid, idx, val):
        m = self.mask_of(st, tid)
        b = mirror_base(idx, m) if m is not None else None
        if b is not None:
            st.eff.append(('mirror', tid, b, val))
        else:
            st.eff.append(('tag', tid, idx, val))

    def mask_of(self, st, tid):
        return 0 if tid == 'NEW' else st.extra.get(('mask', tid), ('mask', tid))

    # ------------------------------------------------------------ arithmetic on pointers
    def binop(self, st, op, a, b):
        if is_pa(a) and is_pa(b) and a[1] == b[1]:
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return Interp.binop(self, st, op, a[2], b[2])
        if op in ('Div', 'Shr') and is_int(b) and b > 0 and isinstance(a, tuple) and a[0] == 'lin':
            k = b if op == 'Div' else 2 ** b
            c, d = lin(a)
            if c % k == 0 and all(x % k == 0 for x in d.values()):
                return ('lin', c // k, tuple((t, x // k) for t, x in a[2])) if c or len(d) > 1 or \
                    list(d.values())[0] != k else list(d)[0]
        r = Interp.binop(self, st, op, a, b)
        if op in ('Add', 'Mul', 'Shl'):
            self.unchecked(st, op, r)
        if op in ('Div', 'Shr') and is_int(b) and b > 0 and isinstance(r, tuple) and not is_pa(a):
            k = b if op == 'Div' else 2 ** b
            st.ord.assume(le(scale(r, k), a))
            st.ord.assume(le(a, add(scale(r, k), k - 1)))
        return r

    def unchecked(self, st, op, r):
        """Arithmetic on a requested size that nothing keeps from wrapping around."""
        if not self.checked and not is_pa(r) and requested(r):
            self.wraps.append((op, r, st.ord.proves(le(r, 2 ** 64 - 1)) or
                               st.ord.feasible([lt(2 ** 64 - 1, r)]) is False))

    def cast(self, st, fr, r, v):
        if 'IntToInt' in r[1] and isinstance(v, tuple) and v and v[0] in ('le', 'eq0', 'not', 'any', 'fact'):
            return ('b2i', v)
        return Interp.cast(self, st, fr, r, v)

    # ------------------------------------------------------------ user code
    def user(self, st, c, name, args, ret=None, may_unwind=True):
        st = st.copy()
        k = st.ordinal(('user', name))
        st.eff.append(('user', name, tuple(args), c.line, k))
        if getattr(c, 'dest_ty', None):
            self.restype[(name, c.line)] = c.dest_ty.get('path') or c.dest_ty.get('s', '')
        if may_unwind:
            u = st.copy()
            u.eff.append(('unwind', name, c.line))
            self.pend.append(u)
        return [(st, ret if ret is not None else ('ucall', name, k))]

    # ------------------------------------------------------------ running
    def run(self, st, fr, start, within, header):
        rets, exits, conts = [], [], []
        loops = natural_loops(fr.fn)
        work = [(st, start, True)]
        while work:
            s, b, first = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Undecided('budget')
            if within is not None and not (first and b == start):
                if b == header:
                    conts.append(s)
                    continue
                if b not in within:
                    exits.append((s, b))
                    continue
            if b in loops and not (within is not None and b == header):
                nxt = self.run_loop(s, fr, b, loops[b])
            else:
                nxt = self.block(s, fr, b)
            for s2, nb in nxt:
                if nb == 'return':
                    rets.append(s2)
                elif nb == 'unwind':
                    self.pend.append(s2)
                else:
                    work.append((s2, nb, False))
        return rets, exits, conts

    def block(self, st, fr, b):
        B = fr.fn['blocks'][b]
        t = B['t']
        if t[0] in ('resume', 'terminate') or (B['cleanup'] and t[0] == 'abort'):
            return [(st, 'unwind')] if t[0] == 'resume' else []
        if t[0] == 'drop':
            return self.drop_block(st, fr, B, t)
        if B['cleanup']:
            B2 = dict(B)
            B2['cleanup'] = False
            blocks = fr.fn['blocks']
            blocks[b] = B2
            try:
                return Interp.block(self, st, fr, b)
            finally:
                blocks[b] = B
        return Interp.block(self, st, fr, b)

    def drop_block(self, st, fr, B, t):
        st = st.copy()
        for s in B['s']:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                root, path = self.place(st, fr, s[1])
                self.write(st, root, path, v)
        save, self.pend = self.pend, []
        root, path = self.place(st, fr, t[1])
        ty = self.place_ty2(fr, t[1])
        c = Ctx()
        c.I, c.fr, c.line, c.fn, c.dest_ty, c.callee, c.path = self, fr, t[4], fr.fn, None, None, 'drop'
        res = self.drop_value(st, c, ('ref', root, path), ty, fr.fn['crate'])
        uws, self.pend = self.pend, save
        out = [(s, t[2]) for s in res]
        for u in uws:
            out += self.unwound(u, t[3])
        return out

    def place_ty2(self, fr, p):
        ty = fr.fn['locals'][p[0]][0]
        cr = fr.fn['crate']
        for e in p[1]:
            if e[0] == 'f':
                ty = e[3]
            elif e[0] == '*':
                ty = cr.ty(ty).get('t')
            elif e[0] == 'd':
                continue
            else:
                return None
        return ty

    def drop_value(self, st, c, ref, ty, crate, depth=0):
        """Drop glue of the value at `ref`; [state]."""
        if ty is None:
            return [st]
        t = crate.ty(ty)
        if t['k'] == 'adt':
            p = t['path']
            if p in self.drops:
                f = self.drops[p]
                if self.opaque(f):
                    return [s for s, _ in self.user(st, c, 'drop ' + p, [])]
                m = self.models.get('drop:' + p)
                if m:
                    return [s for s, _ in m(self, st, [ref], c)]
                return [s for s, _ in self.call_fn(st, f, [ref], c.fr.depth + 1)]
            if p == 'std::mem::ManuallyDrop':
                return [st]
        if self.generic(crate, ty):
            v = None
            try:
                v = self.load(st, ref)
            except Undecided:
                pass
            if is_agg(v) and v[1].startswith('closure:'):
                return [st]
            if t['k'] == 'closure':
                return [st]
            st = st.copy()
            st.eff.append(('dropval', v))
            return [s for s, _ in self.user(st, c, 'drop', [v])]
        return [st]

    def generic(self, crate, ty, depth=0):
        t = crate.ty(ty)
        if t['k'] == 'param':
            return not (t['s'].startswith('impl ') or t['name'] in ('F', 'S'))
        if t['k'] in ('ref', 'ptr', 'fndef', 'prim', 'closure', 'other'):
            return False
        if depth > 4:
            return False
        if t['k'] == 'adt':
            if t['path'].endswith(('PhantomData', 'NonNull', 'ManuallyDrop')):
                return False
            return any(isinstance(a, int) and self.generic(crate, a, depth + 1) for a in t['args'])
        if t['k'] == 'tuple':
            return any(self.generic(crate, a, depth + 1) for a in t['ts'])
        if t['k'] == 'seq':
            return self.generic(crate, t['t'], depth + 1)
        return False

    def unwound(self, u, target):
        if isinstance(target, int):
            return [(u, target)]
        if target == 'terminate':
            return []
        return [(u, 'unwind')]

    def call(self, st, fr, t):
        save, self.pend = self.pend, []
        np = len(self.panics)
        out = Interp.call(self, st, fr, t)
        uws, self.pend = self.pend, save
        for u in uws:
            out = out + self.unwound(u, t[5])
        new = self.panics[np:]
        for p in new:
            if len(p) == 4 and p[2] is fr.fn:
                u = p[0].copy()
                u.eff.append(('unwind', 'panic', p[3]))
                out = out + self.unwound(u, t[5])
        return out

    def call_fn(self, st, fn, args, depth):
        save, self.pend = self.pend, []
        nf0 = self.nf
        out = Interp.call_fn(self, st, fn, args, depth)
        mine, self.pend = self.pend, save
        fid = nf0 + 1
        for u in mine:
            u.mem = {r: x for r, x in u.mem.items() if not (r[0] == 'L' and r[1] == fid)}
            self.pend.append(u)
        return out

    def opaque_call(self, st, c, path, args, kind='call', havoc=True):
        if kind == 'callback' or (c.callee and c.callee.get('trait')):
            r = self.user(st, c, path, [self.snapshot(st, a) for a in args])
            if c.dest_ty is not None and c.dest_ty['s'] == '()':
                return [(s, UNIT) for s, _ in r]
            return r
        return Interp.opaque_call(self, st, c, path, args, kind, havoc)

    # ------------------------------------------------------------ loops
    def run_loop(self, st, fr, header, body):
        """One generic iteration from an arbitrary header state.  Paths modified in
        the body are havocked; relations between the counters, tag classes of fixed
        slots and sweeps over the table are inferred from the steps and re-checked."""
        import rawrules
        key = (fr.fn['fn'], header)
        pre = len(st.eff)
        base = (len(self.pend), len(self.panics), len(self.viol))
        E = rawrules.Ledger(self, st, self.opts)
        for k, m in E.bad:
            self.viol.append((fr.fn, k, m, 'before the loop'))
        nv = len(self.viol)
        mods, wrote = set(), set()
        classes = self.class_candidates(st)
        rels, sweep, final = [], frozenset(), False
        nodel = set()
        for _ in range(14):
            del self.pend[base[0]:], self.panics[base[1]:], self.viol[nv:]
            s1, fresh = self.havoc(st, mods, fr, header, wrote, E)
            for t, i, c in classes:
                if t in wrote:
                    s1.cls[self.tag_at(s1, t, i)] = c
            for t in nodel:
                s1.extra[('nodel', t, s1.eff[pre][2])] = True
            for r in rels:
                s1.ord.assume(r(fresh))
            s1.extra['sweepvars'] = frozenset(self.head_of(fresh[k]) for k in sweep if k in fresh) | \
                s1.extra.get('sweepvars', frozenset())
            rets, exits, conts = self.run(s1, fr, header, body, header)
            new, w = set(), set(wrote)
            for s in conts:
                new |= self.diff(s1, s, fr)
                for e in s.eff[pre + 1:]:
                    if e[0] in ('tag', 'mirror', 'fill'):
                        w |= {e[1]}
                    if e[0] in ('loop', 'bulk'):
                        w |= set(e[1])
                w -= {e[2] for e in s.eff[pre + 1:] if e[0] == 'relaid'}
            if not (new <= mods and w == wrote):
                mods |= new
                nodel |= {t for t in w - wrote if self.no_deleted(st, t)}
                wrote = w
                rels, sweep = [], frozenset()
                continue
            worse = {t for t in nodel if not all(self.no_deleted(s, t) for s in conts)}
            if worse:
                nodel -= worse
                final = False
                continue
            keep = [(t, i, c) for t, i, c in classes if t not in wrote or all(
                set(self.cls_of(s, self.tag_at(s, t, i))) <= set(c) for s in conts)]
            if keep != classes:
                classes = keep
                final = False
                continue
            ends = [rawrules.Ledger(self, s, self.opts) for s in conts]
            if not final:
                rels, sweep = self.relations(s1, fresh, conts, ends, wrote, E)
                final = True
                continue
            break
        else:
            raise Undecided('loop does not settle')
        for L in ends:
            for k, m in L.bad:
                self.viol.append((fr.fn, k, m, 'in the loop'))
        for s in conts:
            held = [k for k in fresh if k[0] == 'table']
            if held:
                own = [self.read(s, k[1], k[2]) for k in held if k[1][0] == 'L']
                for k, m in rawrules.check_exit(self, s, False, own, self.opts)[0]:
                    if k != 'place':
                        self.viol.append((fr.fn, k, m, 'in the loop'))
            for k, m in rawrules.place_rule(self, s, pre + 1):
                self.viol.append((fr.fn, k, m, 'in the loop'))
        info = {'fn': fr.fn, 'header': header, 'entry': st, 'head': s1, 'conts': conts, 'fresh': fresh,
                'frame': fr.id, 'exits': exits, 'rets': rets, 'pre': pre, 'body': body}
        self.loops_seen.setdefault(key, []).append(info)
        segs = tuple(tuple(s.eff[pre + 1:]) for s in conts)
        mark = ('loop', frozenset(wrote), s1.eff[pre][2], segs, len(self.loops_seen[key]) - 1, key)
        post = self.loop_post(s1, fresh, conts, ends, wrote, E, sweep)

        def fin(s):
            s = s.copy()
            s.eff[pre] = mark
            for f in post:
                f(s)
            s.extra['sweepvars'] = st.extra.get('sweepvars', frozenset())
            return s
        for i in range(base[0], len(self.pend)):
            self.pend[i] = fin(self.pend[i])
        return [(fin(s), b) for s, b in exits] + [(fin(s), 'return') for s in rets]

    def class_candidates(self, st):
        out = []
        for tag, c in st.cls.items():
            if isinstance(tag, tuple) and tag[0] == 'tag' and self.tag_at(st, tag[1], tag[2]) == tag:
                out.append((tag[1], tag[2], c))
        for e in st.eff:
            if e[0] == 'tag' and not any(t == e[1] and i == e[2] for t, i, _ in out):
                c = self.cls_of(st, self.tag_at(st, e[1], e[2]))
                if c in ('E', 'D', 'F'):
                    out.append((e[1], e[2], c))
        return out

    def head_of(self, f):
        return f[1][2] if is_pa(f[1]) else f[1]

    def counters(self, head, fresh, conts, ends, wrote, E):
        """[(key, head value, entry value, [step per path])] of the numeric loop variables."""
        out = []
        for k, (old, f) in fresh.items():
            if k[0] in ('ghost', 'table'):
                t = k[1]
                vals = [(L.ghosts(t)[0] if k[2] == 'H' else L.ghosts(t)[1]) for L in ends]
                o = old
            else:
                o = old[2] if is_pa(old) else old
                vals = []
                for s in conts:
                    try:
                        v = self.read(s, k[0], k[1])
                    except (Undecided, KeyError):
                        v = None
                    vals.append(v[2] if is_pa(v) else v)
            h = self.head_of((None, f))
            if o is None or is_agg(o) or any(v is None or is_agg(v) for v in vals):
                continue
            steps = []
            for s, v in zip(conts, vals):
                try:
                    d = sub(v, h)
                except Exception:
                    d = None
                if d is not None and not is_int(d):
                    d = next((q for q in (0, 1, -1) if s.ord.same(v, add(h, q))), None)
                if not is_int(d):
                    break
                steps.append(d)
            else:
                out.append((k, h, o, steps))
        return out

    def relations(self, head, fresh, conts, ends, wrote, E):
        cs = self.counters(head, fresh, conts, ends, wrote, E)
        rels, sweep = [], set()

        def at(k):
            return lambda fr_: self.head_of(fr_[k])
        for i, (k, h, o, ds) in enumerate(cs):
            g = at(k)
            if all(d == 0 for d in ds):
                rels.append(lambda f, g=g, o=o: eq(g(f), o))
                continue
            if ds and all(d == ds[0] for d in ds) and ds[0] > 0:
                sweep.add(k)
            if all(d >= 0 for d in ds):
                rels.append(lambda f, g=g, o=o: le(o, g(f)))
            if all(d <= 0 for d in ds):
                rels.append(lambda f, g=g, o=o: le(g(f), o))
            for k2, h2, o2, ds2 in cs[:i]:
                g2 = at(k2)
                for c in (1, -1):
                    if all(d == c * d2 for d, d2 in zip(ds, ds2)):
                        rels.append(lambda f, g=g, o=o, g2=g2, o2=o2, c=c:
                                    eq(sub(g(f), scale(g2(f), c)), sub(o, scale(o2, c))))
        # an index below its bound stays at most the bound
        for k, h, o, ds in cs:
            if k in sweep and head.ord.proves(le(o, h)) is not None:
                for b in self.bounds(conts, h):
                    if head.ord.proves(le(o, b)) and all(s.ord.proves(le(add(h, d), b)) for s, d in zip(conts, ds)):
                        rels.append(lambda f, g=at(k), b=b: le(g(f), b))
        return rels, frozenset(sweep)

    def bounds(self, conts, h):
        """Terms b with h < b assumed on every path through the body."""
        out = None
        for s in conts:
            mine = set()
            for c, d in s.ord.le:
                if d.get(h) == 1:
                    rest = {t: -v for t, v in d.items() if t != h}
                    mine.add(add(mk(-c, rest), 1))
            out = mine if out is None else out & mine
        return sorted(out or (), key=repr)

    def loop_post(self, head, fresh, conts, ends, wrote, E, sweep):
        """What the summarised loop leaves behind, as functions applied to exit states."""
        post = []
        drains = set().union(*[L.drains for L in ends]) if ends else set()
        dups = set().union(*[L.dups for L in ends]) if ends else set()
        fills = {}
        for L in ends:
            fills.update(L.fills)
        for t in drains:
            def f(s, t=t):
                s.extra[('mode', t)] = 'partial'
                s.extra[('drained', t)] = True
            post.append(f)
        for t in fills:
            wm = None
            for k, (old, f) in fresh.items():
                if k[0] in ('ghost', 'table') or old != 0:
                    continue
                good = True
                for s, L in zip(conts, ends):
                    try:
                        v = self.read(s, k[0], k[1])
                    except (Undecided, KeyError):
                        v = None
                    if t not in L.fills or v is None or not s.ord.same(v, add(L.fills[t][1], 1)):
                        good = False
                if good:
                    wm = f

            def f(s, t=t, wm=wm, every=all(t in L.fills for L in ends), r=fills[t][0]):
                s.extra[('mode', t)] = 'filling' if every else 'partial'
                s.extra[('wm', t)] = wm
                s.extra['filled'] = s.extra.get('filled', ()) + ((t, r),)
            post.append(f)
        if dups:
            post.append(lambda s: s.extra.__setitem__('dups', frozenset(s.extra.get('dups', ())) | dups))
        debt = set().union(*[L.mirrordebt for L in ends]) if ends else set()
        if debt:
            post.append(lambda s: s.extra.__setitem__('mirrordebt', frozenset(debt)))
        conv = set().union(*[L.conv for L in ends]) if ends else set()
        for t in {t for t, _ in conv}:
            for k, h, o, ds in self.counters(head, fresh, conts, ends, wrote, E):
                if k in sweep and o == 0 and set(ds) == {W} and all(L.conv == {(t, h)} for L in ends) and \
                        not any(e[0] in ('tag', 'mirror', 'fill') for s in conts for e in s.eff[len(head.eff):]):
                    def f(s, t=t, h=h, buckets=add(self.mask_of(head, t), 1)):
                        if s.ord.proves(le(buckets, h)):
                            s.eff.append(('convert', t))
                        else:
                            s.issues.append('only some of the groups are prepared for rehashing')
                    post.append(f)
                    break
            else:
                post.append(lambda s: s.issues.append('groups of control bytes are stored without sweeping the table'))
        for t in wrote:
            for k, h, o, ds in self.counters(head, fresh, conts, ends, wrote, E):
                if k not in sweep or o != 0 or not ds:
                    continue
                buckets = add(self.mask_of(head, t), 1)
                if set(ds) == {1} and all(self.leaves_no_deleted(s, t, h) for s in conts):
                    def f(s, t=t, h=h, buckets=buckets):
                        if s.ord.proves(le(buckets, h)):
                            s.eff.append(('nodel', t))
                    post.append(f)
        return post

    def leaves_no_deleted(self, s, t, h):
        if 'D' in self.cls_of(s, self.tag_at(s, t, h)):
            return False

        def clean(effs):
            for e in effs:
                if e[0] == 'tag' and e[1] == t and 'D' in self.cls_of(s, e[3]):
                    return False
                if e[0] in ('fill', 'gstore', 'ctrlcopy', 'copyall', 'convert') and t in e[1:3]:
                    return False
                if e[0] == 'loop' and not all(clean(x) for x in e[3]):
                    return False
            return True
        import rawrules
        k = max(i for i, e in enumerate(s.eff) if e[0] == 'cut')
        return clean(s.eff[k + 1:])

    def havoc(self, st, mods, fr, header, wrote, E):
        s = st.copy()
        fresh = {}
        for t in sorted(E.H, key=repr):
            h, n, m = E.ghosts(t)
            if t in wrote and h is not None:
                for g, v in (('H', h), ('N', n)):
                    f = ('h', self.fresh('h'))
                    fresh[('ghost', t, g)] = (v, f)
                    s.extra[(g, t)] = f
            else:
                s.extra[('H', t)], s.extra[('N', t)] = h, n
            s.extra[('mode', t)] = m
        for t in sorted(wrote - set(E.H), key=repr):
            import rawrules
            h, n, m = rawrules.base_ghosts(self, st, t)
            for g, v in (('H', h), ('N', n)):
                f = ('h', self.fresh('h'))
                fresh[('ghost', t, g)] = (v, f)
                s.extra[(g, t)] = f
        if E.dups:
            s.extra['dups'] = frozenset(E.dups)
        s.extra['mirrordebt'] = frozenset(E.mirrordebt)
        s.extra['badit'] = frozenset(E.badit)
        s.extra['freed'] = frozenset(E.freed) | st.extra.get('freed', frozenset())
        tables, late = {}, []
        for root, path in sorted(mods, key=repr):
            if any((root, path[:n]) in tables for n in range(len(path))):
                continue
            old = None
            try:
                old = self.read(s, root, path)
            except (Undecided, KeyError):
                pass
            if is_agg(old, INNER):
                # replaced as a whole in the body: an arbitrary sound table takes its place
                tables[(root, path)] = True
                p = fget(old, 'ctrl')
                if not (is_pa(p) and p[1][0] == 'ctrlp'):
                    raise Undecided('a table of unknown place changes in a loop')
                tid = ('LT', fr.id, header, root, path)
                late.append(('relaid', p[1][1], tid))
                for c in (le(add(('items', tid), ('gl', tid)), ('cap', ('mask', tid))),
                          le(('cap', ('mask', tid)), ('mask', tid))):
                    s.ord.assume(c)
                self.write(s, root, path, inner(tid))
                fresh[('table', root, path)] = (old, tid)
                continue
            f = self.fresh_like(old, (fr.fn['fn'], header, root[0], root[-1] if root[0] == 'L' else root[1], path))
            fresh[(root, path)] = (old, f)
            if root[0] == 'L' and root[1] == fr.id and old is None:
                continue
            self.write(s, root, path, f)
        s.eff.append(('cut', frozenset(wrote), self.fresh('cut')))
        s.eff += late
        return s, fresh

    def fresh_like(self, old, name):
        if is_pa(old):
            return ('pa', old[1], ('h', self.fresh('h')))
        if isinstance(old, tuple) and old and old[0] == 'bucket':
            return ('bucket', old[1], ('h', self.fresh('h')))
        return ('h',) + (self.fresh('h'),)

    def diff(self, a, b, fr):
        out = set()

        def go(root, path, x, y):
            if x == y:
                return
            if is_agg(x, INNER) and is_agg(y, INNER) and fget(x, 'ctrl')[1:2] != fget(y, 'ctrl')[1:2]:
                out.add((root, path))
                return
            if is_agg(x) and is_agg(y) and x[1] == y[1] and x[2] == y[2] and len(x[4]) == len(y[4]):
                for (n, v), (m, w) in zip(x[4], y[4]):
                    go(root, path + (('f', n),), v, w)
                return
            if is_pa(x) and is_pa(y) and x[1] == y[1]:
                out.add((root, path))
                return
            out.add((root, path))
        for r, v in b.mem.items():
            if r[0] == 'L' and r[1] > fr.id:
                continue
            if r in a.mem and a.mem[r] != v:
                go(r, (), a.mem[r], v)
        return out
