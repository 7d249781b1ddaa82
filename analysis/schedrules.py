"""C32: transitions of the state of a green thread."""
from guards import walk
from syntree import find, path, tail

PARKED = {'Sleeping', 'Joining', 'IoWaiting'}
ALL = PARKED | {'Created', 'Runnable', 'Dead'}
LIST = {'Sleeping': 'sleepers', 'Joining': 'joiners', 'IoWaiting': 'io_waiters'}
STRIP = {'as_thread_inner', 'as_thread_inner_mut', 'unwrap', 'clone', 'borrow', 'borrow_mut', 'state', 'is_dead', 'expect'}


def names(p):
    return [x[2] for x in find(p, 'pident')]


def sname(x):
    if isinstance(x, list) and x and x[0] in ('path', 'ppath'):
        s = x[2].replace(' ', '').split('::')
        if len(s) >= 2 and s[-2] == 'ThreadState' and s[-1] in ALL:
            return s[-1]
    return None


class Fun:
    def __init__(self, f):
        self.f = f
        self.env = {}
        for l in find(f.body, 'local'):
            for n in names(l[2]):
                self.env.setdefault(n, []).append((l[1], l[3]))

    def root(self, e, seen=()):
        """Canonical name of the thread an expression denotes."""
        while True:
            if not isinstance(e, list) or not e:
                return None
            k = e[0]
            if k in ('ref',):
                e = e[3]
            elif k in ('un', 'paren', 'semi', 'tail', 'cast'):
                e = e[3] if k == 'un' else e[2]
            elif k == 'mcall' and e[3] in STRIP:
                e = e[2]
            elif k == 'mcall' and e[3] == 'with' and e[4] and e[4][0][0] == 'closure':
                e = e[4][0][3]
            elif k in ('block', 'unsafe'):
                if not e[2]:
                    return None
                e = e[2][-1]
            elif k == 'call' and path(e[2]) == 'Some':
                e = e[3][0]
            elif k == 'field':
                if e[3] in ('main', 'current'):
                    return '@' + e[3]
                e = e[2] if e[3] in ('state',) else None
            elif k == 'path':
                n = e[2].replace(' ', '')
                if n not in seen:
                    d = [x for l, x in self.env.get(n, ()) if l <= e[1] or not e[1]]
                    if d:
                        return self.root(d[-1], seen + (n,)) or n
                return n
            else:
                return None

    def state_of(self, e):
        """Thread whose state the expression reads, if it is a read of a state."""
        while isinstance(e, list) and e and e[0] in ('paren', 'ref'):
            e = e[-1]
        if not isinstance(e, list) or not e:
            return None
        if e[0] == 'mcall' and e[3] == 'state' and not e[4]:
            return self.root(e[2])
        if e[0] == 'field' and e[3] == 'state':
            return self.root(e[2])
        if e[0] == 'path' and e[2] in self.env:
            for _, i in self.env[e[2]]:
                r = self.state_of(i)
                if r:
                    return r
        return None

    def pat(self, p):
        if p[0] == 'por':
            r = set()
            for x in p[2]:
                r |= self.pat(x)
            return r
        if p[0] in ('pwild', 'pident'):
            return set(ALL)
        s = sname(p)
        return {s} if s else set(ALL)

    def test(self, c, pol, who):
        """States the thread can be in when the condition has the given value."""
        k = c[0]
        if k == 'paren':
            return self.test(c[2], pol, who)
        if k == 'un' and c[2] == '!':
            return self.test(c[3], not pol, who)
        if k == 'bin' and c[2] in ('&&', '||'):
            a, b = self.test(c[3], pol, who), self.test(c[4], pol, who)
            return a & b if (c[2] == '&&') == pol else a | b
        if k == 'bin' and c[2] in ('==', '!='):
            for x, y in ((c[3], c[4]), (c[4], c[3])):
                s = sname(y)
                if s and self.state_of(x) == who:
                    return {s} if (c[2] == '==') == pol else ALL - {s}
        if k == 'mcall' and c[3] == 'is_dead' and self.root(c[2]) == who:
            return {'Dead'} if pol else ALL - {'Dead'}
        if k == 'macro' and c[2] == 'matches' and c[4] and self.state_of(c[4][0]) == who:
            if c[4][2] is None:
                s = self.pat(c[4][1])
                return s if pol else ALL - s
            return self.pat(c[4][1]) if pol else set(ALL)
        if k == 'path' and c[2] in self.env and len(self.env[c[2]]) == 1 and self.env[c[2]][0][1]:
            return self.test(self.env[c[2]][0][1], pol, who)
        return set(ALL)

    def under(self, guards, who):
        s = set(ALL)
        for g in guards:
            if g[0] == 'if':
                s &= self.test(g[1], g[2], who)
            elif self.state_of(g[1]) == who:
                a = self.pat(g[3][2])
                for e in g[2]:
                    if e[3] is None:
                        a -= self.pat(e[2])
                s &= a
        return s


def notmain(fn, c, who):
    """Is the condition exactly `who is not the main thread`?"""
    if c[0] == 'bin' and c[2] == '!=':
        return {fn.root(c[3]), fn.root(c[4])} == {who, '@main'}
    if c[0] == 'un' and c[2] == '!' and c[3][0] == 'bin' and c[3][2] == '==':
        return {fn.root(c[3][3]), fn.root(c[3][4])} == {who, '@main'}
    return False


def c32(t):
    bad = []
    facts = dict(writes=0, wakes=0, parks=0, deaths=0, constructors=0, queued=0, lists=0)
    enum = t.enum('ThreadState')
    vs = {v[0] for v in enum[4]}
    if vs != ALL:
        bad.append(('states', enum[0], enum[1], 'ThreadState has the states %s; the transition rules know %s' % (
            sorted(vs), sorted(ALL))))
    for f in t.fns:
        if f.body is None:
            continue
        rel = [a for a in find(f.body, 'assign') if a[2][0] == 'field' and a[2][3] == 'state' and
               (sname(a[3]) or 'thread' in str(a[2]))]
        pushes = [m for m in find(f.body, 'mcall') if m[3] in ('push_back', 'push_front') and m[2][0] == 'field'
                  and m[2][3] == 'ready']
        if not rel and not pushes:
            continue
        fn = Fun(f)
        ctx = {}
        walk(f.body, [], lambda n, g, l: ctx.setdefault(id(n), (g, l)))

        def add(kind, line, msg):
            bad.append((kind + ':' + f.full, f.file, line, '%s: %s' % (f.full, msg)))
        reg = []          # registrations (list field, thread, node)
        for m in find(f.body, 'mcall'):
            if m[3] in ('push', 'push_back') and m[2][0] == 'field' and m[2][3] in LIST.values() and m[4]:
                a = m[4][0]
                reg.append((m[2][3], fn.root(a[2][-1] if a[0] == 'tuple' else a), m))
        for a in rel:
            if id(a) not in ctx:
                continue
            facts['writes'] += 1
            to = sname(a[3])
            who = fn.root(a[2][2])
            guards, loops = ctx[id(a)]
            if to is None:
                add('write', a[1], 'the state of a thread is set to a value that is not a literal state')
                continue
            if f.file not in ('scheduler.rs', 'value/rvalue/thread.rs'):
                add('writer', a[1], 'the state of a thread is written outside the scheduler')
            frm = fn.under(guards, who)
            if to == 'Runnable':
                facts['wakes'] += 1
                frm = source(fn, f, ctx, loops, who, frm)
                if 'Dead' in frm:
                    add('revive', a[1], 'makes a thread runnable without having excluded that it is dead')
                if frm <= PARKED:
                    if who == '@main' or queued(fn, f, ctx, a, guards, who, pushes):
                        facts['queued'] += 1
                    else:
                        add('queue', a[1], 'makes a parked thread runnable without queueing it for execution')
                elif not runs(t, f, fn, who):
                    add('wake', a[1], 'makes a thread runnable without having checked that it is parked (possible states: %s)'
                        % ', '.join(sorted(frm)))
            elif to in PARKED:
                facts['parks'] += 1
                if not own(fn, guards, who):
                    add('park', a[1], 'parks a thread other than the one that is running')
                if (LIST[to], who) not in {(l, w) for l, w, m in reg}:
                    add('register', a[1], 'parks a thread as %s without entering it in the %s list' % (to, LIST[to]))
                elif not registered(fn, ctx, a, to, who, reg):
                    add('register', a[1], 'parks a thread as %s but enters it in the %s list only sometimes' % (to, LIST[to]))
                if to != 'Sleeping' and ('sleepers', who) not in {(l, w) for l, w, m in reg}:
                    add('timeout', a[1], 'parks a thread as %s without entering its deadline' % to)
                after(t, f, a, to, who, fn, add)
            elif to == 'Dead':
                facts['deaths'] += 1
                dead(t, f, fn, a, add)
            else:
                add('write', a[1], 'a thread is put back to the not-yet-started state')
        for p in pushes:
            if id(p) not in ctx or not p[4]:
                continue
            who = fn.root(p[4][0])
            mine = [a for a in rel if sname(a[3]) == 'Runnable' and fn.root(a[2][2]) == who]
            if mine:
                continue
            if who == '@current' or f.name == 'spawn':
                continue
            add('push', p[1], 'queues a thread for execution without having made it runnable')
    ctors(t, bad, facts)
    lists(t, bad, facts)
    return facts, bad


def source(fn, f, ctx, loops, who, frm):
    """States restricted by how the list a loop runs over was filled."""
    for l in loops:
        if who in names(l[2]):
            v = path(l[3])
            if v:
                got = set()
                ps = [m for m in find(f.body, 'mcall') if m[3] == 'push' and path(m[2]) == v]
                for m in ps:
                    if id(m) in ctx:
                        got |= fn.under(ctx[id(m)][0], fn.root(m[4][0]))
                if ps:
                    frm = frm & got
    return frm


def queued(fn, f, ctx, a, guards, who, pushes):
    for p in pushes:
        if id(p) not in ctx or fn.root(p[4][0]) != who:
            continue
        g = ctx[id(p)][0]
        if g[:len(guards)] != guards:
            continue
        more = g[len(guards):]
        if all(x[0] == 'if' and ((x[2] and notmain(fn, x[1], who)) or (not x[2] and ismain(fn, x[1], who))) for x in more):
            return True
    return False


def ismain(fn, c, who):
    return c[0] == 'bin' and c[2] == '==' and {fn.root(c[3]), fn.root(c[4])} == {who, '@main'}


def runs(t, f, fn, who):
    """The thread is being given control: the function resumes it."""
    return f.name == 'dispatch'


def own(fn, guards, who):
    if who == '@current':
        return True
    return who == '@main' and any(g[0] == 'if' and g[2] and any(path(c[2]) == 'is_current_main' for c in find(g[1], 'call'))
                                  for g in guards)


def registered(fn, ctx, a, to, who, reg):
    g0 = ctx[id(a)][0]
    return any(l == LIST[to] and w == who and id(m) in ctx and ctx[id(m)][0] == g0 for l, w, m in reg)


def calls(n):
    return {tail(path(c[2]) or '') for c in find(n, 'call')}


def after(t, f, a, to, who, fn, add):
    """The park is followed by the switch away; afterwards what was registered for it is withdrawn."""
    blk = None
    for b in find(f.body, 'block'):
        if any(x is a for s in b[2] for x in find(s, 'assign')):
            if 'scheduler_run' in calls(b) or 'park_switch' in calls(b):
                blk = b           # innermost block holding both
    if blk is None:
        add('switch', a[1], 'a thread is parked but control is not handed to the scheduler')
        return
    i = [k for k, s in enumerate(blk[2]) if any(x is a for x in find(s, 'assign'))][0]
    rest = blk[2][i:]
    want = 'scheduler_run' if who == '@main' else 'park_switch'
    j = [k for k, s in enumerate(rest) if want in calls(s)]
    if not j:
        add('switch', a[1], 'a thread is parked but %s is not called' % want)
        return
    for s in rest[1:j[0]]:
        if any(True for _ in find(s, 'return', 'try')):
            add('switch', a[1], 'control can leave between parking a thread and handing over to the scheduler')
    if to == 'IoWaiting':
        # the list of sleepers is cleaned of threads that are no longer parked at the head of every scheduler round, but a
        # thread woken by readiness of a descriptor runs before that
        first = rest[j[0]]
        if any(x[0] == 'try' for x in find(first, 'try')):
            add('withdraw', a[1], 'an interrupt delivered while waiting leaves the descriptor registered')
        got = set()
        for s in rest[j[0]:]:
            if any(True for _ in find(s, 'try')):
                break
            for n in calls(s):
                for g in t.by_name.get(n, ()):
                    if g.file == f.file and n not in ('scheduler_run', 'park_switch'):
                        got |= {m[2][3] for m in find(g.body, 'mcall') if m[3] == 'retain' and m[2][0] == 'field'}
        for l in ('io_waiters', 'sleepers'):
            if l not in got:
                add('withdraw-' + l, a[1], 'after the wait the thread stays in the %s list, so that a later park is ended by '
                    'the old entry' % l)


def dead(t, f, fn, a, add):
    who = fn.root(a[2][2])
    if f.file == 'value/rvalue/thread.rs':
        # marking without unwinding: only for the threads a fork does not copy
        for g in t.fns:
            for m in find(g.body, 'mcall'):
                if m[3] == f.name:
                    fg = Fun(g)
                    ctx = {}
                    walk(g.body, [], lambda n, gs, l: ctx.setdefault(id(n), gs))
                    w = fg.root(m[2])
                    ok = any(x[0] == 'if' and x[2] and x[1][0] == 'bin' and x[1][2] == '!=' and
                             {fg.root(x[1][3]), fg.root(x[1][4])} == {w, '@current'} for x in ctx[id(m)])
                    if not ok:
                        add('dead', m[1], '%s marks threads dead without unwinding them, the running one included' % g.full)
        return
    body = f.body
    if not any(m[3] == 'retain' and m[2][0] == 'field' and m[2][3] == 'threads' for m in find(body, 'mcall')):
        add('dead', a[1], 'a dead thread stays in the table of live threads')
    loops = [l for l in find(body, 'for') if any(sname(x[3]) == 'Runnable' for x in find(l, 'assign'))]
    ok = False
    for l in loops:
        v = path(l[3])
        init = fn.env.get(v, [(0, None)])[-1][1] if v else l[3]
        if init and any(x[3] == 'joiners' and fn.root(x[2]) == who for x in find(init, 'field')):
            ok = True
    if not ok:
        add('dead', a[1], 'a thread dies without waking the threads that wait for it')


def ctors(t, bad, facts):
    for f in t.fns:
        if f.owner != 'ThreadInner':
            continue
        for s in find(f.body, 'struct'):
            for fld in s[3]:
                if fld[0] == 'state':
                    facts['constructors'] += 1
                    st = sname(fld[1])
                    if st is None or st in PARKED:
                        bad.append(('ctor:' + f.full, f.file, s[1], '%s creates a thread in state %s' % (f.full, st)))


def lists(t, bad, facts):
    """Entries leave a waiting list only when the thread is no longer parked for it, or together with being woken."""
    for f in t.fns:
        if f.file != 'scheduler.rs':
            continue
        for m in find(f.body, 'mcall'):
            if m[2][0] != 'field' or m[2][3] not in ('sleepers', 'io_waiters', 'ready', 'joiners'):
                continue
            if m[3] in ('clear', 'truncate', 'remove', 'swap_remove', 'drain', 'pop', 'pop_back', 'split_off'):
                bad.append(('drop:%s:%s' % (f.full, m[2][3]), f.file, m[1],
                            '%s: entries leave the %s list without a look at the thread' % (f.full, m[2][3])))
            if m[3] == 'retain':
                facts['lists'] += 1
                cl = m[4][0]
                fn = Fun(f)
                who = names(cl[2])[-1]
                if m[2][3] == 'io_waiters' or m[2][3] == 'sleepers':
                    drops(f, fn, cl, who, m, bad)


def drops(f, fn, cl, who, m, bad):
    body = cl[3]
    outs = []

    def visit(n, g, l):
        if n[0] == 'return' and n[2] is not None:
            outs.append((n[2], g))
    walk(body, [], visit)

    def last(n, g):
        if n[0] in ('block', 'unsafe'):
            gs = []
            walk(n, g, lambda x, gg, l: gs.append((x, gg)))
            e = n[2][-1]
            inner = e[2] if e[0] in ('tail', 'semi') else e
            gg = [q for x, q in gs if x is inner]
            last(inner, gg[0] if gg else g)
        elif n[0] == 'if' and n[4] is not None:
            last(n[3], g + [('if', n[2], True)])
            last(n[4], g + [('if', n[2], False)])
        elif n[0] == 'match':
            for i, a in enumerate(n[3]):
                last(a[4], g + [('arm', n[2], n[3][:i], a)])
        elif n[0] == 'paren':
            last(n[2], g)
        else:
            outs.append((n, g))
    last(body, [])
    lst = m[2][3]
    need = {'io_waiters': {'IoWaiting'}, 'sleepers': PARKED}[lst]
    for e, g in outs:
        key = 'retain:%s:%s' % (f.full, lst)
        if e[0] == 'lit' and e[2] is True:
            continue
        if e[0] == 'lit' and e[2] is False:
            st = fn.under(g, fn.root(['path', 0, who]))
            woken = any(x[0] == 'arm' and any(c[3] == 'push' for c in find(x[3][4], 'mcall')) for x in g) or any(
                x[0] == 'if' and any(c[3] == 'push' for c in find(body, 'mcall')) and 'deadline' in str(x[1]) for x in g)
            if st & need and not woken:
                bad.append((key, f.file, e[1], '%s: drops the %s entry of a thread that is still parked' % (f.full, lst)))
            continue
        # an expression: kept iff it holds; a parked thread's entry must be kept unless it is the one being withdrawn
        st = fn.test(e, False, fn.root(['path', 0, who]))
        other = e[0] == 'bin' and e[2] == '!=' and fn.root(e[3]) == who
        if st & need and not other:
            bad.append((key, f.file, e[1], '%s: drops the %s entry of a thread that is still parked' % (f.full, lst)))
