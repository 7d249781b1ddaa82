"""Ledger rules over the effects collected by raw.RInterp.

Per table two ghost quantities are carried through every path: the number of full
slots and the number of slots that are not empty, and which slots own an element.
A path is cut at loop headers; loops are summarised by relations between the
ghosts and the loop variables (equal steps on every path through the body) and by
sweeps (an index running over the whole table that leaves each slot in a class).
At every return and at every unwinding exit, for every table still reachable:
  items      the entry count equals the number of full slots
  growth     the room counter equals the capacity minus the slots not empty
  mirror     every control byte written is written to its mirror too
  element    a full slot owns one element, none is dropped, taken or kept twice, and
             none is lost unless a panic is under way
  memory     nothing freed is reachable, the shared empty table is never written
"""
from terms import *
from raw import *


def find_tables(v, out, depth=0):
    if depth > 10 or not isinstance(v, tuple):
        return
    if is_agg(v, INNER):
        p = fget(v, 'ctrl')
        if is_pa(p) and p[1][0] == 'ctrlp':
            out.append((p[1][1], v))
        else:
            out.append((None, v))
        return
    if is_agg(v):
        for _, x in v[4]:
            find_tables(x, out, depth + 1)


def tables_of(st, extra=(), gone=(), twice=None):
    """{tid: table value} reachable from caller-visible memory and `extra`."""
    out = []
    for r, v in st.mem.items():
        if r[0] in ('O', 'D') and r not in gone:
            find_tables(v, out)
    for v in extra:
        find_tables(v, out)
    if twice is not None:
        ids = [t for t, _ in out if t not in (None, 'NEW')]
        twice.extend(sorted({t for t in ids if ids.count(t) > 1}, key=repr))
    return dict(out)


class Slot:
    __slots__ = ('idx', 'start', 'cur', 'tag', 'mir', 'el', 'touched', 'wrote', 'yielded', 'dup', 'mval')

    def judge(self):
        """What is known of the byte and its mirror: either may be written first."""
        if not self.wrote:
            self.mir = ('early', self.mval)
        elif self.mval is None:
            self.mir = ('want', self.tag)
        else:
            self.mir = ('ok' if self.tag == self.mval else 'bad', self.mval)


NOEL = ('taken', 'dropped', None)


def owned(el):
    return el == 'own' or isinstance(el, tuple)


class Ledger:
    """Abstract replay of the effects since the last cut point."""

    def __init__(self, I, st, opts=()):
        self.I, self.st, self.opts = I, st, opts
        k = last_mark(st)
        start = 0 if k is None else k + 1
        self.bad = []
        self.slots = {}
        self.H, self.N, self.mode = {}, {}, {}
        self.freed = set(st.extra.get('freed', ()))
        self.alloc = set()
        self.drains, self.fills, self.dups = set(), {}, set(st.extra.get('dups', ()))
        self.unwinding = False
        self.conv = set()
        self.badit = set(st.extra.get('badit', ()))
        self.mirrordebt = set(st.extra.get('mirrordebt', ()))
        self.at = start
        self.lone = set()
        for i in range(start, len(st.eff)):
            self.at = i
            self.step(st.eff[i])
        self.flush_all()

    def say(self, k, m):
        if (k, m) not in self.bad:
            self.bad.append((k, m))

    # ------------------------------------------------------------ ghosts
    def ghosts(self, tid):
        if tid not in self.H:
            h, n, m = base_ghosts(self.I, self.st, tid)
            self.H[tid], self.N[tid], self.mode[tid] = h, n, m
        return self.H[tid], self.N[tid], self.mode[tid]

    def slot(self, tid, idx):
        for s in self.slots.setdefault(tid, []):
            if self.st.ord.same(s.idx, idx):
                return s
        mode = self.ghosts(tid)[2]
        s = Slot()
        s.idx = idx
        s.touched = s.wrote = s.yielded = False
        s.mir = s.tag = s.mval = s.dup = None
        # class of the slot just before the first of our writes to it
        b = self.st.copy()
        b.eff = [e for i, e in enumerate(self.st.eff[:self.at])]
        s.start = s.cur = '?' if mode == 'uninit' else self.I.cls_of(self.st, self.I.tag_at(b, tid, idx))
        c = s.cur
        if mode in ('bare', 'uninit'):
            s.el = None
        elif mode == 'pend':
            s.el = {'F': 'own', 'D': 'own', 'DF': 'own', 'E': None}.get(c, '?')
        elif mode == 'filling':
            wm = self.st.extra.get(('wm', tid))
            s.el = 'own' if c == 'F' and wm is not None and self.st.ord.proves(lt(idx, wm)) else \
                (None if c in ('E', 'D', 'DE', 'ED') else '?')
        elif mode == 'partial':
            s.el = None if c in ('E', 'D', 'DE', 'ED') else '?'
        else:
            s.el = {'F': 'own', 'E': None, 'D': None, 'ED': None, 'DE': None}.get(c, '?')
        self.slots[tid].append(s)
        return s

    # ------------------------------------------------------------ effects
    def step(self, e):
        k = e[0]
        if k in ('fill', 'copyall', 'alloc'):
            t = e[2] if k == 'copyall' else e[1]
            m = self.I.mask_of(self.st, t)
            if self.st.ord.feasible([eq(m, 0)]) and t not in self.lone:
                self.lone.add(t)
                self.say('memory', 'the shared empty table is written, or a table is allocated that passes for it' if
                         k == 'alloc' else 'the shared empty table may be written')
        if k == 'tag':
            s = self.slot(e[1], e[2])
            s.touched = s.wrote = True
            s.tag = e[3]
            s.cur = self.I.cls_of(self.st, e[3])
            s.judge()
            if e[1] == 'NEW':
                self.say('memory', 'the shared empty table is written')
        elif k == 'mirror':
            s = self.slot(e[1], e[2])
            s.touched = True
            s.mval = e[3]
            s.judge()
        elif k == 'fill':
            self.reset(e[1], 'the control bytes are reset')
            if e[1] == 'NEW':
                self.say('memory', 'the shared empty table is written')
            if self.I.cls_of(self.st, e[2]) != 'E':
                self.say('items', 'the control bytes are reset to a tag that is not EMPTY')
            self.H[e[1]] = self.N[e[1]] = 0
            self.mode[e[1]] = 'ok'
            self.mirrordebt.discard(e[1])
        elif k == 'partfill':
            self.say('mirror', 'only part of the control bytes is reset')
        elif k == 'convert':
            t = e[1]
            self.flush(t)
            h, n, m = self.ghosts(t)
            if m != 'ok':
                self.say('element', 'a table is prepared for rehashing while its slots are not settled')
            self.H[t], self.N[t], self.mode[t] = 0, h, 'pend'
            self.mirrordebt.add(t)
        elif k == 'mirrorfix':
            self.mirrordebt.discard(e[1])
        elif k == 'ctrlcopy':
            self.say('mirror', 'control bytes are copied to a place where they do not belong')
        elif k == 'gstore':
            g = e[3]
            if isinstance(g, tuple) and g[0] == 'converted' and g[1][:3] == ('grp', e[1], e[2]) and \
                    g[1][3] == self.I.epoch(self.st, e[1], self.at):
                self.conv.add((e[1], e[2]))
            else:
                self.say('mirror', 'a whole group of control bytes is stored')
        elif k == 'copyall':
            r, t = e[1], e[2]
            self.flush(r)
            self.reset(t, 'the control bytes are overwritten')
            h, n, m = self.ghosts(r)
            n = subst(n, {capof(self.I.mask_of(self.st, r)): capof(self.I.mask_of(self.st, t))})
            self.H[t], self.N[t], self.mode[t] = h, n, 'bare'
            self.mirrordebt.discard(t)
        elif k == 'nodel':
            t = e[1]
            self.flush(t)
            h, n, m = self.ghosts(t)
            if m == 'pend':
                self.H[t], self.mode[t] = n, 'ok'
        elif k == 'free':
            if e[1] in self.freed:
                self.say('memory', 'a table allocation is freed twice')
            if e[1] == 'NEW':
                self.say('memory', 'the shared empty table is freed')
            self.reset(e[1], 'the table is freed')
            self.freed.add(e[1])
        elif k == 'alloc':
            self.H[e[1]] = self.N[e[1]] = None
            self.mode[e[1]] = 'uninit'
        elif k == 'relaid':
            self.flush(e[1])
            if e[1] != 'NEW':
                self.freed.add(e[1])
        elif k == 'unwind':
            self.unwinding = True
        elif k == 'yield':
            s = self.slot(e[1], e[2])
            s.yielded = True
            if self.ghosts(e[1])[2] in ('partial',) and s.el == '?' and e[1] not in self.badit:
                s.el = 'own'
        elif k == 'newiter':
            self.flush(e[1])
            if self.ghosts(e[1])[2] in ('partial', 'bare', 'filling', 'uninit'):
                self.badit.add(e[1])
        elif k == 'exhausted':
            t = e[1]
            if self.ghosts(t)[2] == 'partial' and ('drained', t) in self.st.extra:
                self.mode[t] = 'bare'
            for s, r in self.st.extra.get('filled', ()):
                if r == t and self.ghosts(s)[2] == 'filling':
                    self.mode[s] = 'ok'
        elif k == 'el':
            self.element(e)

    def reset(self, t, what):
        """All slots of `t` lose their tags: their elements must have gone before."""
        if t not in self.freed:
            self.flush(t, True)
        h, n, m = self.ghosts(t)
        if m in ('ok', 'pend') and t != 'NEW' and not self.lossless(t, h) and not self.unw():
            self.say('element', what + ' while it still owns elements (lost)')
        self.drains.discard(t)
        self.fills.pop(t, None)

    def lossless(self, t, h):
        if 'noelem' in self.opts or h is None:
            return True
        if self.st.ord.same(h, 0) or any(a == t for a, b in self.dups):
            return True
        return any(f[1] == 'needs_drop' and not v for f, v in facts(self.st))

    def unw(self):
        return self.unwinding or any(e[0] == 'unwind' for e in self.st.eff)

    def element(self, e):
        op, tid, idx = e[1], e[2], e[3]
        if tid in self.freed:
            self.say('memory', 'an element slot is used after its table was freed')
            return
        s = self.slot(tid, idx)
        if op == 'ref':
            if s.el in NOEL or s.el == '?':
                self.say('element', 'a slot that may not hold an element is handed out')
            return
        s.touched = True
        if op == 'read':
            if s.el in NOEL or s.el == '?':
                self.say('element', 'an element is taken out of a slot that may not hold it')
            s.el = 'taken'
        elif op == 'drop':
            if s.el in NOEL or s.el == '?':
                self.say('element', 'an element is dropped in a slot that may not hold it')
            s.el = 'dropped'
        elif op == 'write':
            if owned(s.el):
                self.say('element', 'an element is overwritten without being dropped')
            s.el = ('new', e[4])
        elif op in ('copy', 'swap'):
            d = self.slot(*e[4])
            d.touched = True
            if s.el in NOEL or s.el == '?' or (op == 'swap' and (d.el in NOEL or d.el == '?')):
                self.say('element', 'an element is moved out of a slot that may not hold one')
            if op == 'swap':
                s.el, d.el = d.el, s.el
                return
            if owned(d.el):
                self.say('element', 'an element is overwritten by another one')
            d.el = ('moved', tid, idx)
            if e[4][0] == tid:
                s.el = 'taken'
            else:
                s.dup = e[4]
                self.dups.add((tid, e[4][0]))

    # ------------------------------------------------------------ folding slots into the ghosts
    def flush_all(self):
        for t in list(self.slots):
            self.flush(t)

    def flush(self, tid, dying=False):
        h, n, mode = self.ghosts(tid)
        for s in self.slots.pop(tid, []):
            if not s.touched:
                continue
            if s.mir is not None and not dying:
                if s.mir[0] == 'want':
                    self.say('mirror', 'a control byte is changed without its mirror')
                elif s.mir[0] == 'bad':
                    self.say('mirror', 'a control byte and its mirror are given different tags')
                elif s.mir[0] == 'early':
                    self.say('mirror', 'a mirror byte is changed without its control byte')
            a, b = s.start, s.cur
            if a != b:
                if None in (fl(a), fl(b), ne(a), ne(b)):
                    self.say('undecided', 'the tag class of a written slot is not decided (%s to %s)' % (a, b))
                elif h is not None:
                    h = add(h, fl(b) - fl(a))
                    n = add(n, ne(b) - ne(a))
            self.settle(tid, s, mode, dying)
        self.H[tid], self.N[tid] = h, n

    def settle(self, tid, s, mode, dying):
        full = s.cur == 'F' or (mode == 'pend' and s.cur in ('D', 'DF'))
        if full:
            if s.el in NOEL:
                if s.yielded or self.swept(s.idx):
                    self.drains.add(tid)
                elif not dying:
                    self.say('element', 'a slot is left marked full without a live element')
            elif mode == 'bare' and owned(s.el):
                src = [r for r, t in self.copies() if t == tid]
                if src and any(e[0] == 'yield' and e[1] == src[0] and self.st.ord.same(e[2], s.idx)
                               for e in self.st.eff):
                    self.fills[tid] = (src[0], s.idx)
        elif s.cur in ('E', 'D', 'ED', 'DE'):
            if owned(s.el) and not self.unw() and 'noelem' not in self.opts and not self.nodrop(s):
                self.say('element', 'an element is left in a slot marked free (lost)')

    def nodrop(self, s):
        return s.el == 'own' and any(f[1] == 'nodropfn' and v for f, v in facts(self.st))

    def copies(self):
        return [(e[1], e[2]) for e in self.st.eff if e[0] == 'copyall']

    def swept(self, idx):
        return idx in self.st.extra.get('sweepvars', ())


def facts(st):
    for f, v in st.ord.facts.items():
        if isinstance(f, tuple) and len(f) > 1 and f[0] == 'fact':
            yield f, v


def base_ghosts(I, st, tid):
    if tid == 'NEW':
        return 0, 0, 'ok'
    m = I.mask_of(st, tid)
    h = st.extra.get(('H', tid), st.extra.get(('base', tid), ('items', tid)))
    n = st.extra.get(('N', tid), sub(capof(m), ('gl', tid)))
    return h, n, st.extra.get(('mode', tid), 'ok')


def capof(m):
    return ('cap', m) if not is_int(m) else (m if m < 8 else (m + 1) // 8 * 7)


def fl(c):
    return {'F': 1, 'E': 0, 'D': 0, 'ED': 0, 'DE': 0}.get(c)


def ne(c):
    return {'F': 1, 'E': 0, 'D': 1, 'DF': 1}.get(c)


def last_mark(st):
    for k in range(len(st.eff) - 1, -1, -1):
        if st.eff[k][0] in ('loop', 'cut'):
            return k
    return None


def tables_in(args):
    out = []
    for a in args:
        find_tables(a, out)
    return [t for t, _ in out]


def has_iter(v, tid, depth=0):
    if v == ('range', tid):
        return True
    return is_agg(v) and depth < 10 and any(has_iter(x, tid, depth + 1) for _, x in v[4])


def check_exit(I, st, unwinding, extra=(), opts=(), gone=(), owned_in=()):
    """Violations at a return or unwinding exit: [(clause, message)]."""
    L = Ledger(I, st, opts)
    for m in st.issues:
        k, _, m2 = m.partition(':')
        L.say(*((k, m2) if k == 'place' else ('memory', m)))
    twice = []
    end = tables_of(st, extra, gone, twice)
    for t in twice:
        L.say('element', 'one table is owned by two values')
    if None in end:
        L.say('undecided', 'a table with an unknown pointer stays reachable')
        end.pop(None)
    if L.conv:
        L.say('mirror', 'a whole group of control bytes is stored')
    for tid, t in sorted(end.items(), key=repr):
        if tid in L.freed:
            L.say('memory', 'a freed table stays reachable')
            continue
        h, n, mode = L.ghosts(tid)
        ei, eg, em = fget(t, 'items'), fget(t, 'growth_left'), fget(t, 'bucket_mask')
        if em != I.mask_of(st, tid) and tid != 'NEW':
            L.say('memory', 'the bucket mask of a table changes without a new allocation')
        if mode == 'uninit':
            L.say('memory', 'a table with uninitialised control bytes becomes reachable')
            continue
        if mode == 'pend':
            L.say('element', 'elements waiting to be rehashed are left marked as deleted')
            continue
        if mode in ('bare', 'partial', 'filling') or tid in L.drains or tid in L.fills:
            if 'yielded' not in opts:
                L.say('element', 'full slots without elements stay reachable')
                continue
        if tid in L.mirrordebt:
            L.say('mirror', 'the mirrored control bytes are not brought up to date')
        if 'nocount' in opts:
            continue
        if not st.ord.same(ei, h):
            L.say('items', 'the entry count does not follow the number of full slots')
        if not st.ord.same(eg, sub(capof(em), n)):
            L.say('growth', 'the room left does not follow the number of slots taken or freed')
        elif not st.ord.proves(le(0, eg)):
            L.say('growth', 'an empty slot is taken although no room may be left')
    away = {t for e in st.eff if e[0] == 'user' for t in tables_in(e[2])}
    for tid in sorted((set(owned_in) | {e[1] for e in st.eff if e[0] in ('alloc', 'relaid')} |
                       {e[2] for e in st.eff if e[0] == 'relaid'}) - {'NEW', None}, key=repr):
        if tid not in away and not unwinding and tid not in end and tid not in L.freed and not any(has_iter(v, tid) for v in extra) and \
                not st.ord.same(st.extra.get(('entrymask', tid), ('mask', tid)), 0):
            L.say('memory', 'the memory of a table that is given up is never freed')
    for a, b in L.dups:
        la, lb = a in end and a not in L.freed, b in end and b not in L.freed
        if la and lb:
            L.say('element', 'an element is kept in two tables')
        if lb and not la and not st.ord.same(L.ghosts(a)[0], L.ghosts(b)[0]):
            L.say('element', 'elements of the old table are not all in the new one (lost)')
        if not la and not lb and not unwinding:
            L.say('element', 'elements of a replaced table are lost')
        if a in L.drains or b in L.drains or ('drained', a) in st.extra or ('drained', b) in st.extra:
            L.say('element', 'an element that was moved is dropped as well')
    return L.bad + place_rule(I, st), L


def place_rule(I, st, start=0):
    """Every element is tagged with its own hash, at a slot on the probe sequence of that hash."""
    out = []
    users = {(e[1], e[4]): e for e in st.eff if e[0] == 'user'}

    def say(m):
        if ('place', m) not in out:
            out.append(('place', m))
    for n in range(start, len(st.eff)):
        e = st.eff[n]
        if e[0] in ('search', 'probe') and isinstance(e[2], tuple) and e[2][0] not in ('arg', 'ucall', 'fld', 'call', 'khash') \
                or e[0] == 'search' and is_int(e[2]):
            say('a search runs under something that is not a hash')
        if e[0] != 'tag' or 'F' not in I.cls_of(st, e[3]):
            continue
        t, x, v = e[1], e[2], e[3]
        if not (isinstance(v, tuple) and v[0] == 'fulltag'):
            if isinstance(v, tuple) and v[0] == 'tag' and v[1] == t and st.ord.same(v[2], x):
                continue
            say('an element is given a tag that is not made from its hash')
            continue
        h = v[1]
        if isinstance(x, tuple) and x[0] == 'ins':
            if not st.ord.same(x[2], h):
                say('a slot found by probing for one hash is tagged with another')
        elif not any(f[1] == 'samegroup' and tv and f[4] == h and (
                st.ord.same(f[2], x) and on_path(f[3], t, h) or st.ord.same(f[3], x) and on_path(f[2], t, h))
                for f, tv in facts(st)):
            say('an element is placed at a slot its search may not reach')
        if isinstance(h, tuple) and h[0] == 'khash':
            w = [m for m in st.eff if m[0] == 'el' and m[1] == 'write' and m[2] == t and st.ord.same(m[3], x)]
            if w and h[1] not in (w[-1][4], fget(w[-1][4], '0') if is_agg(w[-1][4]) else None) and \
                    not accepted(st, h[1], w[-1][4]):
                say('an element is filed under the hash of another key')
        if isinstance(h, tuple) and h[0] == 'ucall':
            u = users.get((h[1], h[2]))
            j = u[2][-1] if u else None
            moved = [m for m in st.eff if m[0] == 'el' and m[1] in ('copy', 'swap') and m[4] == (t, x)]
            if u is None or not (moved and st.ord.same(moved[-1][3], j) or not moved and st.ord.same(x, j)):
                say('an element is filed under the hash of another element')
    return out


def accepted(st, q, v):
    """The user's own comparison said that `v` (or its key) equals `q`."""
    k = fget(v, '0') if is_agg(v) else v
    for e in st.eff:
        if e[0] == 'user' and e[1].endswith('::into') and k == ('ucall', e[1], e[4]) and bare(q) in map(bare, e[2]):
            return True
        if e[0] == 'user' and 'equivalent' in e[1] and {bare(x) for x in e[2][:2]} == {bare(q), bare(k)}:
            r = ('ucall', e[1], e[4])
            if st.ord.truth(r) or st.ord.truth(('fld', ('as', r, 'Ok'), '0')):
                return True
    return False


def bare(t):
    while isinstance(t, tuple) and t and t[0] == '&':
        t = t[1]
    return t


def on_path(i, t, h):
    return isinstance(i, tuple) and i[0] == 'ins' and i[1] == t and i[2] == h
