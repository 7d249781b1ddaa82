"""C26: what runs in signal context.  C27: the lanes of the safepoint poll word."""
import re

from framework import AnchorMissing
from syntree import find, path, tail

ATOMIC = ('fetch_or', 'fetch_and', 'fetch_add', 'fetch_sub', 'fetch_xor', 'load', 'store', 'swap', 'compare_exchange',
          'compare_exchange_weak')
# async-signal-safe system calls (POSIX) the handlers may make
LIBC = {'libc::write', 'libc::_exit', 'libc::kill', 'libc::raise', 'libc::abort', 'libc::alarm'}
PURE = {'as_ptr', 'len', 'contains', 'wrapping_add', 'wrapping_sub', 'wrapping_shl', 'min', 'max', 'unsigned_abs', 'get'}
OK = {'path', 'lit', 'call', 'mcall', 'if', 'let', 'block', 'unsafe', 'semi', 'tail', 'local', 'ref', 'un', 'cast', 'bin',
      'paren', 'return', 'range', 'item', 'pident', 'pwild', 'plit', 'ptype', 'tuple', 'ptuple', 'match', 'arm', 'ppath',
      'por', 'prange', 'pts', 'while', 'loop', 'break', 'continue', 'field', 'closure', 'assign', 'prest'}


def callees(t, f, name):
    """Functions of the crate a path can name, seen from f."""
    n = tail(name)
    c = [g for g in t.by_name.get(n, ()) if g.owner is None]
    segs = [s for s in name.split('::')[:-1] if s not in ('crate', 'self', 'super')]
    if segs:
        c = [g for g in c if segs[-1] == g.file.rsplit('/', 1)[-1].removesuffix('.rs') or segs[-1] in g.mod
             or g.file.endswith(segs[-1] + '/mod.rs')]
    elif len([g for g in c if g.file == f.file]) >= 1:
        c = [g for g in c if g.file == f.file]
    return c


def handlers(t):
    """Functions whose address is handed to the kernel: stored into sa_sigaction, directly or through a function that
    does so with its parameter."""
    out, sites, via = {}, 0, {}
    for f in t.fns:
        for a in find(f.body, 'assign'):
            if a[2][0] == 'field' and a[2][3] in ('sa_sigaction', 'sa_handler'):
                sites += 1
                ps = [path(x) for x in find(a[3], 'path')]
                par = [i for i, p in enumerate([q for q in f.params if q[0] != 'self']) if p[0] in ps]
                if par:
                    via.setdefault(f.name, (f, par[0]))
                else:
                    out.update(named(t, f, a[3], a[1]))
    for f in t.fns:
        for c in find(f.body, 'call'):
            n = path(c[2])
            if n and tail(n) in via and via[tail(n)][1] < len(c[3]):
                sites += 1
                out.update(named(t, f, c[3][via[tail(n)][1]], c[1]))
            if n and tail(n) == 'signal' and n.startswith('libc::') and len(c[3]) == 2:
                sites += 1
                out.update(named(t, f, c[3][1], c[1]))
    return out, sites


def named(t, f, e, line):
    r = {}
    for p in find(e, 'path'):
        n = path(p)
        if tail(n) in ('SIG_DFL', 'SIG_IGN', 'SIG_ERR'):
            continue
        g = callees(t, f, n)
        if len(g) != 1:
            raise AnchorMissing('signal disposition %s in %s' % (n, f.full))
        r[g[0].full] = g[0]
    return r


def c26(t):
    hs, sites = handlers(t)
    statics = {c[2]: c[3].replace(' ', '') for c in t.consts}
    bad, seen, calls, atomics = [], {}, 0, 0
    work = [(h, (h.name,)) for h in hs.values()]
    while work:
        f, chain = work.pop()
        if id(f) in seen:
            continue
        seen[id(f)] = f
        via = ' -> '.join(chain)

        def no(line, what, msg):
            bad.append((f, line, '%s|%s|%s' % (chain[0], f.name, what), '%s (%s): %s' % (f.full, via, msg)))
        local_consts = {i[2][2]: i[2][3].replace(' ', '') for i in find(f.body, 'item') if i[2][0] in ('const', 'static')}
        env = {p[0]: p[1].replace(' ', '') for p in f.params}
        for n in walk(f.body):
            k, line = n[0], n[1]
            if k == 'macro':
                no(line, 'macro ' + n[2].replace(' ', ''), 'runs the macro `%s!` in signal context' % n[2].replace(' ', ''))
            elif k == 'index':
                no(line, 'index', 'indexes (may panic) in signal context')
            elif k == 'try':
                no(line, 'try', 'propagates an error out of signal context')
            elif k in ('await', 'struct', 'array', 'repeat'):
                pass
            elif k == 'bin' and n[2] in ('/', '%', '/=', '%='):
                if n[4][0] != 'lit' or n[4][2] == 0:
                    no(line, 'division', 'divides (may panic) in signal context')
            elif k == 'bin' and n[2] in ('<<', '>>', '<<=', '>>='):
                calls += 1
                if n[4][0] != 'lit' and not guarded(f, n):
                    no(line, 'shift', 'shifts by an unchecked amount (may panic) in signal context')
            elif k == 'call':
                calls += 1
                name = path(n[2])
                if name is None:
                    no(line, 'indirect call', 'calls a function value in signal context')
                elif name in LIBC or tail(name) in ('Some', 'Ok', 'Err'):
                    pass
                else:
                    g = callees(t, f, name)
                    if len(g) == 1:
                        work.append((g[0], chain + (g[0].name,)))
                    else:
                        no(line, 'call ' + name, 'calls `%s` in signal context' % name)
            elif k == 'mcall':
                calls += 1
                m = n[3]
                if m in ATOMIC:
                    atomics += 1
                    if not atomic(n[2], statics, local_consts, f):
                        no(line, 'method ' + m, 'calls `%s` on something that is not a static atomic' % m)
                elif m not in PURE:
                    no(line, 'method ' + m, 'calls the method `%s` in signal context' % m)
            elif k == 'path':
                n0 = path(n)
                ty = statics.get(tail(n0))
                if ty and n0 == tail(n0) and n0 not in env and ('Mutex' in ty or 'RefCell' in ty or 'Lazy' in ty or 'Once' in ty):
                    no(line, 'static ' + n0, 'touches `%s` (%s) in signal context' % (n0, ty))
            elif k == 'closure':
                pass
    return {'handlers': sorted(hs), 'sites': sites, 'functions': sorted(f.full for f in seen.values()), 'calls': calls,
            'atomics': atomics}, bad


def walk(n):
    if isinstance(n, list):
        if n and isinstance(n[0], str) and len(n) > 1 and isinstance(n[1], int):
            yield n
            if n[0] == 'item':
                return
        for x in n:
            if isinstance(x, list):
                yield from walk(x)


def atomic(recv, statics, local_consts, f):
    r = recv
    while r[0] in ('unsafe', 'block') and len(r[2]) == 1:
        r = r[2][0][2]
    if r[0] == 'ref':
        r = r[3]
    if r[0] == 'un' and r[2] == '*':
        c = r[3]
        while c[0] == 'paren':
            c = c[2]
        return c[0] == 'cast' and 'Atomic' in c[3]
    p = path(r)
    if p is None:
        return False
    ty = local_consts.get(p) or statics.get(tail(p))
    if ty:
        return 'Atomic' in ty and 'Arc' not in ty
    for l in find(f.body, 'local'):
        if l[2][0] == 'pident' and l[2][2] == p and l[3] is not None:
            return atomic(l[3], statics, local_consts, f)
    return False


def guarded(f, shift):
    """The shift stands inside a condition that bounds a name in its amount by constants."""
    names = {path(p) for p in find(shift[4], 'path')}
    for i in find(f.body, 'if'):
        if any(x is shift for x in find(i[3], 'bin')):
            for m in find(i[2], 'mcall'):
                if m[3] == 'contains' and m[2][0] in ('range', 'paren') and names & {path(p) for y in m[4] for p in find(y, 'path')}:
                    r = m[2] if m[2][0] == 'range' else m[2][2]
                    lo, hi, inc = r[2], r[3], r[4]
                    if lo and hi and lo[0] == 'lit' and hi[0] == 'lit':
                        off = 0
                        for b in find(shift[4], 'bin'):
                            if b[2] == '-' and b[4][0] == 'lit':
                                off = b[4][2]
                        top = hi[2] - (0 if inc else 1) - off
                        if lo[2] - off >= 0 and top < 32:
                            return True
    # an early return outside the bounds
    for i in find(f.body, 'if'):
        if i[1] < shift[1] and any(find(i[3], 'return')) and names & {path(p) for p in find(i[2], 'path')}:
            return True
    return False


# ------------------------------------------------------------------ C27
WORD = 'poll_flag.rs'


def lanes(t):
    ls, ms = {}, {}
    for c in t.consts:
        if c[0] == WORD and c[4] and c[4][0] == 'lit':
            if c[2].endswith('_LANE_MASK'):
                ms[c[2]] = (c[4][2], c[1])
            elif c[2].endswith('_LANE'):
                ls[c[2]] = (c[4][2], c[1])
    if len(ls) < 3 or len(ms) < 3:
        raise AnchorMissing('lanes of the poll word')
    return ls, ms


def word_ops(t):
    """(function, method node) for every operation on the poll word."""
    out = []
    for f in t.fns:
        if f.file in (WORD, 'preempt.rs') or 'AtomicU32' in str(f.body):
            names, direct = set(), []
            for c in find(f.body, 'call'):
                if path(c[2]) and tail(path(c[2])) == 'with_flag':
                    for cl in c[3]:
                        if cl[0] == 'closure' and cl[2] and cl[2][0][0] == 'pident':
                            out += [(f, m) for m in find(cl[3], 'mcall') if path(m[2]) == cl[2][0][2]]
                        elif cl[0] != 'closure':
                            raise AnchorMissing('operation on the poll word in %s' % f.full)
            for l in find(f.body, 'local'):
                if l[3] is not None and l[2][0] == 'pident' and word_deref(l[3]):
                    names.add(l[2][2])
            for m in find(f.body, 'mcall'):
                if word_deref(m[2]) or path(m[2]) in names:
                    direct.append(m)
            out += [(f, m) for m in direct]
    return out


def word_deref(e):
    r = e
    while r[0] in ('unsafe', 'block') and len(r[2]) == 1 and len(r[2][0]) > 2:
        r = r[2][0][2]
    if r[0] == 'ref':
        r = r[3]
    if r[0] == 'un' and r[2] == '*':
        c = r[3]
        while c[0] == 'paren':
            c = c[2]
        return c[0] == 'cast' and c[3].replace(' ', '') in ('*constAtomicU32', '*mutAtomicU32')
    return False


def callers(t, name, file=None):
    r = []
    for f in t.fns:
        for c in find(f.body, 'call'):
            p = path(c[2])
            if p and tail(p) == name and (file is None or '::' not in p and f.file == file or file.removesuffix('.rs').rsplit('/', 1)[-1] in p.split('::')
                                          or '::' not in p):
                r.append((f, c))
        for c in find(f.body, 'mcall'):
            if c[3] == name:
                r.append((f, c))
    return r


def order(f, first, second):
    """In the innermost statement list that holds both, the first comes before the second."""
    for b in find(f.body, 'block', 'unsafe'):
        pos = {}
        for i, s in enumerate(b[2]):
            for x in find(s, 'call', 'mcall'):
                n = x[3] if x[0] == 'mcall' else tail(path(x[2]) or '')
                if n in (first, second):
                    pos.setdefault(n, []).append(i)
        if first in pos and second in pos and min(pos[first]) < min(pos[second]) and cond_free(b[2][min(pos[first])], first):
            return True
    return False


def cond_free(s, name):
    """The call is made whenever the statement is."""
    for i in find(s, 'if', 'match', 'while', 'for', 'closure'):
        inner = i[3:] if i[0] in ('if', 'match') else i[2:]
        for x in find(inner, 'call', 'mcall'):
            if (x[3] if x[0] == 'mcall' else tail(path(x[2]) or '')) == name:
                return False
    for b in find(s, 'bin'):
        if b[2] in ('&&', '||'):
            for x in find(b[4], 'call', 'mcall'):
                if (x[3] if x[0] == 'mcall' else tail(path(x[2]) or '')) == name:
                    return False
    return True


def c27(t):
    ls, ms = lanes(t)
    bad, n = [], {'lane': 0, 'ops': 0, 'callers': 0, 'polls': 0, 'order': 0}
    any_fn = t.fn('with_flag', WORD)

    def no(f, line, key, msg):
        bad.append((f, line, key, msg))
    for a, (v, line) in ls.items():
        n['lane'] += 1
        own = ms.get(a + '_MASK')
        if own is None or v & ~own[0] or v == 0:
            no(any_fn, line, 'lane|' + a, 'the lane %s lies outside its own mask' % a)
        for b, (w, _) in ms.items():
            if b != a + '_MASK' and own and (w & own[0] or w & v):
                no(any_fn, line, 'lane|%s|%s' % (a, b), 'the lanes %s and %s overlap' % (a, b))
    does = {}
    for f, m in word_ops(t):
        n['ops'] += 1
        op, args = m[3], m[4]
        if op == 'load':
            continue
        if op == 'fetch_or' and args and path(args[0]) and tail(path(args[0])) in ls:
            does.setdefault(f.name, []).append(('set', tail(path(args[0])), m))
        elif op == 'fetch_and' and args and args[0][0] == 'un' and args[0][2] == '!' and path(args[0][3]) \
                and tail(path(args[0][3])) in ms:
            does.setdefault(f.name, []).append(('clear', tail(path(args[0][3])).removesuffix('_MASK'), m))
        else:
            no(f, m[1], 'op|%s|%s' % (f.name, op), '%s changes the poll word with `%s`, which touches other lanes' % (f.full, op))
    # who sets and who clears
    want = {'set_gc': ('set', 'GC_LANE'), 'clear_gc': ('clear', 'GC_LANE'), 'set_preempt': ('set', 'PREEMPT_LANE'),
            'consume_preempt': ('clear', 'PREEMPT_LANE'), 'clear_signal': ('clear', 'SIGNAL_LANE'),
            'set_signal_from_handler': ('set', 'SIGNAL_LANE'), 'timer_loop': ('set', 'PREEMPT_LANE'),
            'register_flag': ('set', 'PREEMPT_LANE')}
    for name, w in want.items():
        n['lane'] += 1
        f = t.fn(name)
        got = [(a, b) for a, b, _ in does.get(name, ())]
        if got != [w]:
            no(f, f.line, 'role|' + name, '%s must %s exactly %s; it does %s' % (name, w[0], w[1], got or 'nothing'))
    for name in does:
        if name not in want:
            f = t.fn(name)
            for a, b, m in does[name]:
                if a == 'clear':
                    no(f, m[1], 'role|' + name, '%s clears %s' % (f.full, b))
    may = {'clear_gc': ['ack_gc_request'], 'consume_preempt': ['execute_gc'], 'clear_signal': ['execute_gc'],
           'take_pending_signals': ['execute_gc'], 'ack_gc_request': ['gc'], 'set_signal_from_handler': ['signal_handler']}
    for name, ok in may.items():
        cs = [(f, c) for f, c in callers(t, name)]
        if not cs:
            raise AnchorMissing('no caller of ' + name)
        for f, c in cs:
            n['callers'] += 1
            if f.name not in ok:
                no(f, c[1], 'caller|%s|%s' % (name, f.name), '%s answers a request through %s' % (f.full, name))
    # the pending set: bits are only added by the handler and only taken as a whole
    for f in t.fns:
        for m in find(f.body, 'mcall'):
            if path(m[2]) and tail(path(m[2])) == 'PENDING_SIGNALS' and m[3] != 'load':
                n['ops'] += 1
                if (f.name, m[3]) not in (('signal_handler', 'fetch_or'), ('take_pending_signals', 'swap')):
                    no(f, m[1], 'pending|%s|%s' % (f.name, m[3]), '%s changes the set of pending signals with `%s`' % (f.full, m[3]))
    x = t.fn('execute_gc', 'executor.rs')
    for f, a, b, why in ((x, 'clear_signal', 'take_pending_signals', 'the lane of signals is cleared after the pending set '
                          'is drained: a signal in between loses its request'),
                         (t.fn('signal_handler'), 'fetch_or', 'set_signal_from_handler',
                          'the request is raised before the signal is recorded')):
        n['order'] += 1
        if not order_any(f, a, b):
            no(f, f.line, 'order|' + f.name, why)
    h = t.fn('signal_handler')
    if not any(cond_free(s, 'set_signal_from_handler') and any(tail(path(c[2]) or '') == 'set_signal_from_handler'
               for c in find(s, 'call')) for s in h.body[2]):
        no(h, h.line, 'order|raise', 'a recorded signal does not always raise a request')
    # the collector: a request is acknowledged only when collection is switched off or after the sweep
    g = t.fn('gc', 'alloc.rs')
    stm = g.body[2]
    acks = [i for i, s in enumerate(stm) if any(m[3] == 'ack_gc_request' for m in find(s, 'mcall'))]
    work = [i for i, s in enumerate(stm) if any(re.match(r'sweep', m[3]) for m in find(s, 'mcall'))]
    if not work or not acks:
        raise AnchorMissing('mark, sweep and acknowledgement in the collector')
    for i in acks:
        n['order'] += 1
        s = stm[i]
        node = s[2] if s[0] in ('semi', 'tail') else s
        early = node[0] == 'if' and any(find(node[3], 'return')) and 'gc_enabled' in str(node[2])
        if not early and i < max(work):
            no(g, s[1], 'order|ack', 'the request is acknowledged before the collection is done')
    if not any(i > max(work) and cond_free(stm[i], 'ack_gc_request') for i in acks):
        no(g, g.line, 'order|noack', 'a completed collection does not acknowledge the request')
    # a taken preemption tick reaches the scheduler
    if not any(b[2][0] == 'pident' and any(tail(path(c[2]) or '') == 'consume_preempt' for c in find(b[3], 'call'))
               and passes(x, b[2][2]) for b in find(x.body, 'local') if b[3] is not None):
        no(x, x.line, 'order|preempt', 'a consumed preemption request does not reach the scheduler')
    c = t.fn('consume_preempt', WORD)
    n['order'] += 1
    if not consumes(c):
        no(c, c.line, 'order|consume', 'the preemption lane is cleared without reporting the request')
    # the collection itself happens whenever it is requested and not deferred
    if not any(any(tail(path(k[2]) or '') == 'gc_requested' for k in find(i[2], 'call')) and
               any(m[3] == 'gc' for m in find(i[3], 'mcall')) for i in find(x.body, 'if')):
        no(x, x.line, 'order|collect', 'a requested collection is not run at the safepoint')
    polls(t, n, no, bad)
    return {'lanes': len(ls), **n}, bad


def order_any(f, a, b):
    pos = {}
    k = [0]

    def go(n):
        if isinstance(n, list):
            for x in n:
                go(x)
            if n and n[0] in ('call', 'mcall') and len(n) > 3:
                nm = n[3] if n[0] == 'mcall' else tail(path(n[2]) or '')
                if nm in (a, b):
                    pos.setdefault(nm, k[0])
                k[0] += 1
    go(f.body)
    if a not in pos or b not in pos or pos[a] > pos[b]:
        return False
    if a == 'clear_signal':
        return order(f, a, b)
    return True


def passes(f, var):
    for i in find(f.body, 'if'):
        if var in [path(p) for p in find(i[2], 'path')] and any(tail(path(c[2]) or '') == 'pass' for c in find(i[3], 'call')):
            return True
    return False


def consumes(f):
    """The branch that clears says so: the value is true, or the old word tested."""
    for i in find(f.body, 'if'):
        if any(m[3] == 'fetch_and' for m in find(i[3], 'mcall')):
            last = i[3][2][-1]
            v = last[2] if last[0] == 'tail' else None
            if last[0] == 'semi' and last[2][0] == 'return':
                v = last[2][2]
            if v is None or v[0] != 'lit' or v[2] is not True:
                return False
            if not any(tail(path(p) or '') == 'PREEMPT_LANE_MASK' or tail(path(p) or '') == 'PREEMPT_LANE' for p in find(i[2], 'path')):
                return False
            e = i[4]
            if e is not None:
                y = e[2][-1] if e[0] == 'block' else e
                if y[0] == 'tail' and y[2][0] == 'lit' and y[2][2] is not False:
                    return False
            return True
    for b in find(f.body, 'bin'):
        if b[2] == '!=' and any(m[3] == 'fetch_and' for m in find(b[3], 'mcall')) and b[4][0] == 'lit' and b[4][2] == 0:
            return any(tail(path(p) or '').startswith('PREEMPT_LANE') for x in find(b[3], 'bin') if x[2] == '&' for p in find(x[4], 'path'))
    return False


def polls(t, n, no, bad):
    """Generated code only tests the whole word."""
    count = {'x86_64': 0, 'aarch64': 0}
    for f in t.fns:
        if '/arch/' not in f.file:
            continue
        arch = 'x86_64' if '/x86_64/' in f.file else 'aarch64'
        names = {'poll_flag'}
        for l in find(f.body, 'local'):
            if l[2][0] == 'pident' and l[3] is not None and any(x[3] == 'poll_flag' for x in find(l[3], 'field')):
                names.add(l[2][2])
        if not any(x[3] == 'poll_flag' for x in find(f.body, 'field')):
            continue
        for m in find(f.body, 'macro'):
            ins = [re.sub(r'\s+', ' ', s.strip()) for s in m[3].split(';')]
            regs = set()
            for k, i in enumerate(ins):
                i = re.sub(r'^.*?self ?\. ?jit ?,\s*', '', i)
                hit = any(re.search(r'\b%s\b' % x, i) for x in names)
                if hit:
                    n['polls'] += 1
                    if arch == 'x86_64':
                        nxt = re.sub(r'^.*: ', '', ins[k + 1]) if k + 1 < len(ins) else ''
                        if re.match(r'cmpl \[ ?rip \+ \w+ ?\] ?, 0$', i) and re.match(r'(jne|jnz|jeq|jz|je) ', nxt):
                            count[arch] += 1
                        else:
                            no(f, m[1], 'poll|%s|%s' % (arch, f.name), 'the poll is not a test of the whole word: `%s; %s`' % (i, nxt))
                    else:
                        r = re.match(r'mov x(\d+) ?, \( ?\w+ ?\)$', i)
                        if r:
                            regs.add(r.group(1))
                        else:
                            no(f, m[1], 'poll|%s|%s' % (arch, f.name), 'the address of the poll word is used in `%s`' % i)
                    continue
                r = re.search(r'\[ ?x(\d+)', i)
                if r and r.group(1) in regs:
                    g = re.match(r'ldr w(\d+) ?, \[ ?x\d+ ?\]$', i)
                    nxt = ins[k + 1] if k + 1 < len(ins) else ''
                    if g and re.match(r'cbn?z [xw]%s ?,' % g.group(1), nxt):
                        count[arch] += 1
                    else:
                        no(f, m[1], 'poll|%s|%s' % (arch, f.name), 'the poll is not a test of the whole word: `%s; %s`' % (i, nxt))
    for a, k in count.items():
        if k < 1 and not any(b[2].startswith('poll|') for b in bad):
            raise AnchorMissing('no poll of the word in generated code for ' + a)
