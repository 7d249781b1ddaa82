"""C30: iterations over a hash hold the iteration guard, and what changes the key set looks at it."""
import os
import re

import discard
import framework
from framework import AnchorMissing
from guards import walk
from syntree import find, path, tail

HASH = 'value/rvalue/hash.rs'
FRESH = ('new_empty_set', 'new_empty_set_like', 'hash', 'hash_from_inner', 'dup', 'clone', 'default', 'new')
CHAIN = ('unwrap', 'clone', 'inner', 'as_ref', 'expect')
LAZY = ('iter', 'enumerate', 'map', 'filter', 'filter_map', 'zip', 'rev', 'skip', 'take', 'peekable', 'copied', 'cloned', 'by_ref',
        'chain', 'flat_map', 'take_while', 'skip_while', 'inspect', 'step_by')
EAGER = ('collect', 'to_vec', 'count')
PROBE = ('insert', 'get', 'contains_key', 'remove', 'shift_remove', 'tombstone_remove', 'entry')


def locals_of(f):
    env = {}
    for l in find(f.body, 'local', 'let'):
        for x in find(l[2], 'pident'):
            env.setdefault(x[2], []).append((l[1], l[3]))
    return env


class H:
    def __init__(self, t):
        self.t = t
        self.G = discard.Graph(t)
        self.ret = {f.name for f in t.fns if ('Hashmap' in (f.ret or '') and 'HashmapInner' not in (f.ret or '')) or 'HashRef' in (f.ret or '')}
        self.ret -= {'default', 'new', 'clone', 'inner', 'as_ref', 'as_mut'}
        if not {'as_hash', 'as_hash_mut', 'as_hashmap_inner', 'try_hash_ty'} <= self.ret:
            raise AnchorMissing('accessors that view a value as a hash')

    def hashy(self, f, e, env, d=0):
        """Is the expression a handle on a hash object?"""
        while isinstance(e, list) and e:
            k = e[0]
            if k in ('ref', 'un'):
                e = e[3]
            elif k in ('paren', 'try', 'semi', 'tail'):
                e = e[2]
            elif k == 'mcall':
                if e[3] in self.ret:
                    return True
                if e[3] not in CHAIN:
                    return False
                e = e[2]
            elif k == 'call':
                n = tail(path(e[2]) or '')
                if n in ('Some', 'Ok') and e[3]:
                    e = e[3][0]
                else:
                    return n in self.ret
            elif k == 'path':
                if d > 4:
                    return False
                n = e[2]
                return any(self.hashy(f, x, env, d + 1) for _, x in env.get(n, ())) or any(
                    p[0] == n and re.search(r'\b(Hashmap|HashRef)\b', p[1]) for p in f.params)
            elif k == 'match':
                return any(self.hashy(f, a[4], env, d + 1) for a in e[3])
            elif k in ('block', 'unsafe'):
                e = e[2][-1] if e[2] else None
            elif k == 'if':
                return self.hashy(f, e[3], env, d + 1) or bool(e[4] and self.hashy(f, e[4], env, d + 1))
            else:
                return False
        return False

    def root(self, e, env, d=0):
        """What the handle denotes: a parameter, the receiver, an argument, a local."""
        while isinstance(e, list) and e:
            k = e[0]
            if k in ('ref', 'un'):
                e = e[3]
            elif k in ('paren', 'try', 'semi', 'tail', 'cast'):
                e = e[2]
            elif k == 'mcall':
                if e[3] in ('self_val',):
                    return 'receiver'
                if e[3] in self.ret or e[3] in CHAIN:
                    e = e[2]
                elif e[3] == 'arg' or e[3] == 'try_arg':
                    return 'arg' + str(e[4][0][2] if e[4] and e[4][0][0] == 'lit' else '?')
                else:
                    return None
            elif k == 'call':
                n = tail(path(e[2]) or '')
                if n in ('Some', 'Ok') and e[3]:
                    e = e[3][0]
                elif n in FRESH:
                    return 'fresh'
                else:
                    return None
            elif k == 'path':
                n = e[2]
                ds = [x for l, x in env.get(n, ()) if l <= e[1]]
                if d < 6 and ds:
                    r = self.root(ds[-1], env, d + 1)
                    if r:
                        return r
                return n
            else:
                return None
        return None

    def runs(self, n, f):
        """Calls below n that can run Ruby code."""
        out = []
        for c in find(n, 'call', 'mcall'):
            if any(id(g) in self.G.reach for g in self.G.targets(c, f)):
                out.append(c)
            elif c[0] == 'mcall' and c[3] in PROBE and len(c[4]) >= 2 and path(c[4][-2]) == 'vm' and path(c[4][-1]) == 'globals':
                out.append(c)
        return out


def live(h, f, env, src):
    """The hash handle a lazily evaluated iteration expression walks, if it does."""
    e = src
    while isinstance(e, list) and e and e[0] in ('mcall', 'paren', 'ref'):
        if e[0] != 'mcall':
            e = e[-1]
            continue
        if e[3] in EAGER:
            return None
        if e[3] == 'iter' and not e[4] and h.hashy(f, e[2], env):
            return e
        if e[3] not in LAZY:
            return None
        e = e[2]
    return None


def c30(t, repo):
    h = H(t)
    bad = []
    facts = dict(walks=0, live_with_calls=0, guarded=0, guards=0, mutators=0, ruby=0)
    for f in t.fns:
        if not f.body or f.file.startswith('codegen/arch'):
            continue
        env = None
        sites = []
        has_iter = [m for m in find(f.body, 'mcall') if m[3] == 'iter' and not m[4]]
        if has_iter:
            env = locals_of(f)
            for l in find(f.body, 'for'):
                m = live(h, f, env, l[3])
                if m:
                    sites.append((m, l[4], l))
            for c in find(f.body, 'mcall'):
                if c[4] and c[4][0] and c[4][0][0] == 'closure':
                    m = live(h, f, env, c[2])
                    if m:
                        sites.append((m, c[4][0], c))
        gs = [m for m in find(f.body, 'mcall') if m[3] == 'iter_guard']
        facts['walks'] += len({id(m) for m, _, _ in sites})
        if gs and f.file != HASH:
            env = env or locals_of(f)
            facts['guards'] += len(gs)
            guard_use(h, f, gs, bad)
        for m, body, at in sites:
            r = h.runs(body, f)
            if not r:
                continue
            who = h.root(m[2], env)
            if who == 'fresh':
                continue
            facts['live_with_calls'] += 1
            if any(h.root(g[2], env) == who and covers(f, g, at) for g in gs):
                facts['guarded'] += 1
            else:
                bad.append(('unguarded:%s:%s' % (f.file, f.full), f.file, m[1],
                            '%s walks the live entries of a hash (%s) and calls Ruby code at line %d without holding the iteration guard'
                            % (f.full, who or 'expression', r[0][1])))
    machinery(t, bad, facts)
    cursor(t, bad)
    ruby(repo, bad, facts)
    return facts, bad


def cursor(t, bad):
    """The cursor over the entries stored in the object itself does not point at them: they move out when the hash is promoted."""
    e = t.enum('Iter', HASH)
    v = [x for x in e[4] if x[0] == 'Inline']
    if len(v) != 1:
        raise AnchorMissing('cursor over inline entries')
    if re.search(r"&|slice\s*::|\*\s*(const|mut)|NonNull", str(v[0][1:])):
        bad.append(('cursor:Inline', HASH, e[1], 'the cursor over inline entries points into the object, whose entries move when a walk with '
                    'calls into Ruby promotes the hash'))


def covers(f, g, at):
    """The guard is bound in a block that holds the iteration, before it."""
    for b in find(f.body, 'block', 'unsafe'):
        i = j = None
        for k, s in enumerate(b[2]):
            if s[0] == 'local' and s[3] is g:
                i = k
            if any(x is at for x in find(s, at[0])):
                j = k
        if i is not None and j is not None and i < j:
            return True
    return False


def guard_use(h, f, gs, bad):
    held = {}
    for l in find(f.body, 'local'):
        if any(l[3] is g for g in gs):
            held[id(l[3])] = l
    for g in gs:
        l = held.get(id(g))
        if l is None or l[2][0] != 'pident':
            bad.append(('guard:%s:%s' % (f.file, f.full), f.file, g[1],
                        '%s takes the iteration guard without keeping it for the iteration' % f.full))
            continue
        name = l[2][2]
        for c in find(f.body, 'call'):
            n = tail(path(c[2]) or '')
            if n in ('drop', 'forget', 'new', 'leak') and any(path(a) == name for a in c[3]):
                # released early: nothing may run Ruby code afterwards within the walk
                if n != 'drop' or in_loop_before(f, c):
                    bad.append(('guard:%s:%s' % (f.file, f.full), f.file, c[1],
                                '%s gives the iteration guard away with %s' % (f.full, n)))


def in_loop_before(f, c):
    return any(any(x is c for x in find(l, 'call')) for l in find(f.body, 'for', 'while', 'loop'))


def fn(t, owner, name):
    r = [f for f in t.fns if f.file == HASH and f.name == name and (f.owner or '').split('<')[0] == owner]
    if len(r) != 1:
        raise AnchorMissing('%s::%s in %s' % (owner, name, HASH))
    return r[0]


def names(n):
    return {m[3] for m in find(n, 'mcall')}


def machinery(t, bad, facts):
    def add(f, line, msg, key):
        bad.append((key + ':' + f.full, f.file, line, '%s: %s' % (f.full, msg)))

    # the guard: released by its destructor, with what taking it answered
    d = [f for f in t.fns if f.file == HASH and f.name == 'drop' and (f.owner or '').startswith('IterGuard')]
    if not d:
        raise AnchorMissing('destructor of the iteration guard')
    dec = [m for m in find(d[0].body, 'mcall') if m[3] == 'iter_decr']
    ctx = []
    walk(d[0].body, [], lambda n, g, l: ctx.append((n, g)))
    if len(dec) != 1 or any(n is dec[0] and g for n, g in ctx) or not (
            dec[0][4] and dec[0][4][0][0] == 'field' and dec[0][4][0][3] == 'real'):
        add(d[0], d[0].line, 'the guard does not release exactly what it took', 'release')
    mk = fn(t, 'HashRef', 'iter_guard')
    st = [s for s in find(mk.body, 'struct') if path(s) or True]
    ok = False
    env = {l[2][2]: l[3] for l in find(mk.body, 'local') if l[2][0] == 'pident'}
    for s in st:
        for fld in s[3]:
            if fld[0] == 'real':
                e = env.get(path(fld[1]), fld[1])
                ok = ok or (e[0] == 'mcall' and e[3] == 'iter_incr')
    if not ok:
        add(mk, mk.line, 'the guard does not record whether a reference was taken', 'release')
    others = [f for f in t.fns for s in find(f.body, 'struct') if tail(s[2].replace(' ', '')) == 'IterGuard' and f is not mk] \
        if st else []
    for f in others:
        add(f, f.line, 'makes an iteration guard of its own', 'release')
    inc, dcr = fn(t, 'HashRef', 'iter_incr'), fn(t, 'HashRef', 'iter_decr')
    steps(inc, '+', add)
    steps(dcr, '-', add)
    act = fn(t, 'HashRef', 'iter_active')
    if 'iter_lev' not in str(act.body) or 'ITER_MASK' not in str(act.body):
        add(act, act.line, 'does not read both iteration counters', 'active')
    # the two halves agree on the branch: inline counts in the header, boxed in the cell
    for f in (inc, dcr, act):
        branch(f, add)
    # who takes references without the guard object: the pair of internal methods for the Ruby-level walks
    for f in t.fns:
        if not f.body or f.file == HASH:
            continue
        for m in find(f.body, 'mcall'):
            if m[3] in ('iter_incr', 'iter_decr'):
                facts['guards'] += 1
                if f.name not in ('iter_begin', 'iter_end'):
                    add(f, m[1], 'takes or releases an iteration reference by hand', 'manual')
    bg = [f for f in t.by_name.get('iter_begin', ()) if f.file == 'builtins/hash.rs']
    if bg and not any(m[3] == 'iter_incr' for m in find(bg[0].body, 'mcall')):
        add(bg[0], bg[0].line, 'does not take a reference', 'manual')
    if bg and not any(c[0] == 'call' and tail(path(c[2]) or '') == 'bool' and names(c) & {'iter_incr'} for c in find(bg[0].body, 'call')):
        add(bg[0], bg[0].line, 'does not hand back whether a reference was taken', 'manual')
    # key-set changing operations look at the counter before anything else they change
    W = {'HashRefMut': ('insert', 'remove', 'clear', 'shift', 'compare_by_identity')}
    for name in W['HashRefMut']:
        f = fn(t, 'HashRefMut', name)
        facts['mutators'] += 1
        order(f, add)
    allm = [f for f in t.fns if f.file == HASH and (f.owner or '').startswith('HashRefMut') and f.body]
    for f in allm:
        tests = {'iter_active', 'check_iter'} & names(f.body)
        for m in find(f.body, 'mcall'):
            if m[3] == 'compact_if_dirty':
                ctx = {}
                walk(f.body, [], lambda n, g, l: ctx.setdefault(id(n), g))
                if not tests:
                    add(f, m[1], 'compacts the entries without looking whether an iteration is active', 'compact')
                elif not inactive(f, m, ctx):
                    add(f, m[1], 'compacts the entries although an iteration may be active', 'compact')
    pr = fn(t, 'HashRefMut', 'promote')
    good = False
    env = {l[2][2]: l[3] for l in find(pr.body, 'local') if l[2][0] == 'pident'}
    for s in find(pr.body, 'struct'):
        for fld in s[3]:
            if fld[0] == 'iter_lev':
                txt = str(fld[1])
                for n, e in env.items():
                    if "'%s'" % n in txt:
                        txt += str(e)
                good = good or ('ITER_MASK' in txt and 'ITER_SHIFT' in txt)
    if not good:
        add(pr, pr.line, 'moving a hash to the boxed form loses its iteration depth', 'promote')
    setf = [m for m in find(pr.body, 'mcall') if m[3] == 'set_flags']
    if not setf or any('ITER_MASK' in str(m[4]) for m in setf):
        add(pr, pr.line, 'moving a hash to the boxed form keeps the depth in the header too', 'promote')
    cb = fn(t, 'HashRef', 'clone_body')
    for s in find(cb.body, 'struct'):
        for fld in s[3]:
            if fld[0] in ('iter_lev', 'dead') and not (fld[1][0] == 'call' and fld[1][3] and fld[1][3][0][0] == 'lit' and
                                                      str(fld[1][3][0][2]) == '0'):
                add(cb, s[1], 'a copy of a hash starts with the iteration state of the original', 'clone')


def steps(f, op, add):
    """Both forms of the counter change by exactly one."""
    got = []
    for b in find(f.body, 'bin'):
        if b[2] in ('+', '-') and b[4][0] == 'lit':
            got.append((b[2], str(b[4][2])))
    if sorted(got) != [(op, '1'), (op, '1')]:
        add(f, f.line, 'the two forms of the iteration counter do not each change by %sone' % ('plus ' if op == '+' else 'minus '), 'step')
    if op == '-':
        # nothing is released that was not taken
        ctx = []
        walk(f.body, [], lambda n, g, l: ctx.append((n, g)))
        for n, g in ctx:
            if n[0] == 'bin' and n[2] == '-' and n[4][0] == 'lit':
                real = [x for x in g if x[0] == 'if' and ((x[1][0] == 'un' and x[1][2] == '!' and path(x[1][3]) == 'real' and not x[2])
                                                          or (path(x[1]) == 'real' and x[2]))]
                if not real:
                    add(f, n[1], 'releases a reference that may not have been taken', 'step')
    else:
        ctx = []
        walk(f.body, [], lambda n, g, l: ctx.append((n, g)))
        for n, g in ctx:
            if n[0] == 'lit' and n[2] in (True, False):
                sat = any(x[0] == 'if' and 'ITER_MAX' in str(x[1]) and x[2] for x in g)
                inl = any(x[0] == 'if' and 'is_inline' in str(x[1]) and x[2] for x in g)
                want = sat if inl else True
                if n[2] != want:
                    add(f, n[1], 'answers wrongly whether a reference was taken', 'step')


def branch(f, add):
    ctx = []
    walk(f.body, [], lambda n, g, l: ctx.append((n, g)))
    for n, g in ctx:
        k = None
        if n[0] == 'field' and n[3] == 'iter_lev':
            k = False
        elif n[0] == 'path' and n[2] in ('ITER_MASK',):
            k = True
        if k is None:
            continue
        inl = [x[2] for x in g if x[0] == 'if' and x[1][0] == 'mcall' and x[1][3] == 'is_inline']
        if inl != [k]:
            add(f, n[1], 'uses the counter of the other representation', 'branch')


CHANGES = ('insert', 'insert_prehashed', 'insert_prehashed_with', 'shift_remove', 'shift_remove_index', 'swap_remove', 'clear',
           'inline_remove_at', 'install', 'promote', 'compact_if_dirty', 'set_rep', 'shift', 'retain', 'drain', 'truncate', 'pop')


def order(f, add):
    """Every change of the key set happens after the counter was read."""
    ctx = {}
    walk(f.body, [], lambda n, g, l: ctx.setdefault(id(n), g))
    tests = [m for m in find(f.body, 'mcall') if m[3] in ('iter_active', 'check_iter')]
    if not tests:
        add(f, f.line, 'changes the key set without looking whether an iteration is active', 'order')
        return
    chk = [m for m in tests if m[3] == 'check_iter']
    for m in find(f.body, 'mcall'):
        if m[3] not in CHANGES or id(m) not in ctx:
            continue
        if chk:
            if m[1] < chk[0][1]:
                add(f, m[1], 'changes the hash before the check for an active iteration', 'order')
            continue
        if f.name == 'insert':
            # only the test for a new key stands before the changes
            if not inactive_or_known(f, m, ctx[id(m)]):
                add(f, m[1], 'adds an entry although an iteration may be active', 'order')
        elif m[3] in ('shift_remove', 'shift_remove_index', 'inline_remove_at', 'compact_if_dirty', 'shift') and not inactive(f, m, ctx):
            add(f, m[1], 'closes up the entries although an iteration may be active', 'order')
    if chk:
        tr = [x for x in find(f.body, 'try') if any(c is chk[0] for c in find(x, 'mcall'))]
        if not tr:
            add(f, chk[0][1], 'the answer of the check for an active iteration is not used', 'order')


def acttest(c, pol):
    """Condition with this value means no iteration is active."""
    if c[0] == 'un' and c[2] == '!':
        return acttest(c[3], not pol)
    if c[0] == 'paren':
        return acttest(c[2], pol)
    if c[0] == 'mcall' and c[3] == 'iter_active':
        return not pol
    return False


def inactive(f, m, ctx):
    g = ctx[id(m)]
    if any(x[0] == 'if' and acttest(x[1], x[2]) for x in g):
        return True
    chk = [c for c in find(f.body, 'try') if any(q[3] == 'check_iter' for q in find(c, 'mcall'))]
    return any(c[1] <= m[1] for c in chk)


def inactive_or_known(f, m, g):
    for x in g:
        if x[0] != 'if':
            continue
        if acttest(x[1], x[2]):
            return True
        c = x[1]
        if c[0] == 'bin' and c[2] == '&&' and not x[2]:
            s = [c[3], c[4]]
            if any(y[0] == 'mcall' and y[3] == 'iter_active' for y in s) and any(
                    y[0] == 'un' and y[2] == '!' and 'contains_key' in str(y) for y in s):
                return True
    return False


def ruby(repo, bad, facts):
    """Ruby-level walks: the reference is released in an ensure that covers everything after it was taken."""
    p = os.path.join(repo, 'monoruby/builtins/hash.rb')
    if not os.path.exists(p):
        raise AnchorMissing('monoruby/builtins/hash.rb')
    L = open(p).read().split('\n')
    for i, s in enumerate(L):
        m = re.match(r'^(\s*)(\w+)\s*=\s*__iter_begin\s*(#.*)?$', s)
        if not m:
            if '__iter_begin' in s.split('#')[0]:
                bad.append(('ruby:%d' % i, '../builtins/hash.rb', i + 1, 'a reference is taken and not kept'))
            continue
        facts['ruby'] += 1
        ind, var = m.group(1), m.group(2)
        j = i + 1
        while j < len(L) and (not L[j].strip() or L[j].strip().startswith('#')):
            j += 1
        ok = False
        if j < len(L) and L[j].rstrip() == ind + 'begin':
            k = j + 1
            while k < len(L) and L[k].rstrip() not in (ind + 'ensure', ind + 'end'):
                k += 1
            if k < len(L) and L[k].rstrip() == ind + 'ensure':
                e = k + 1
                while e < len(L) and L[e].rstrip() != ind + 'end':
                    e += 1
                rel = [x.strip() for x in L[k + 1:e] if x.strip() and not x.strip().startswith('#')]
                ok = rel.count('__iter_end(%s)' % var) == 1
        if not ok:
            name = next((re.match(r'\s*def (\S+)', L[q]).group(1) for q in range(i, -1, -1) if re.match(r'\s*def ', L[q])), '?')
            bad.append(('ruby:' + name, '../builtins/hash.rb', i + 1,
                        'Hash#%s: the iteration reference is not released by an ensure that covers the walk' % name))
    n = len([s for s in L if '__iter_end' in s.split('#')[0]])
    if n != facts['ruby']:
        bad.append(('ruby:count', '../builtins/hash.rb', 1, '%d references are taken and %d released' % (facts['ruby'], n)))
