"""C34: every change to what a cached method or constant lookup would answer moves the version the caches compare."""
import re
from syntree import choices, find, path, tail

MUT = {'insert', 'remove', 'get_mut', 'entry', 'clear', 'retain', 'values_mut', 'iter_mut', 'drain', 'extend', 'remove_entry'}
# what is guarded: kind -> (fields, files holding the record, the call that moves the version)
KINDS = {
    'method table': (('methods',), 'globals/store/', 'class_version_inc'),
    'ancestor chain': (('superclass', 'origin'), 'value/rvalue/module.rs', 'class_version_inc'),
    'constant table': (('constants',), 'globals/store/', ('const_version_inc', 'const_version_inc_for')),
}
# changes that no cached answer depends on
NEUTRAL = {
    ('constant table', 'ClassInfoTable::set_autoload_state'): 'moves a registration between idle and loading; only loaded values are cached',
    ('ancestor chain', 'class_initialize'): 'the class is refused unless it has no superclass and no name yet',
    ('ancestor chain', 'Globals::new'): 'first link, before any code has run',
}
RUBY = re.compile(r'^(invoke_|call_|require|eval|yield_|execute)')


def last(e):
    """Name of the variable or field an expression ends in."""
    while isinstance(e, list) and e:
        if e[0] == 'path':
            return tail(e[2].replace(' ', ''))
        if e[0] == 'field':
            return e[3]
        if e[0] in ('paren', 'try'):
            e = e[2]
        elif e[0] in ('ref', 'un'):
            e = e[3]
        elif e[0] == 'mcall' and e[3] in ('borrow', 'borrow_mut', 'as_mut', 'clone', 'unwrap'):
            e = e[2]
        else:
            return None
    return None


def guess(f, recv):
    n = last(recv)
    if recv and recv[0] == 'index':
        return 'ClassInfo'
    return {'self': f.owner, 'globals': 'Globals', 'store': 'Store', 'vm': 'Executor', 'classes': 'ClassInfoTable'}.get(n)


DEREF = {'Globals': 'Store', 'Store': 'ClassInfoTable', 'Module': 'ModuleInner', 'Executor': None}


def resolves(f, x, g, named):
    """May call x, inside f, be a call of g?  named: the functions of that name."""
    if x[0] == 'mcall':
        if not any('self' in str(p) for p in g.params[:1]) and not g.owner:
            return False
        o = guess(f, x[2])
        seen = 0
        while o and seen < 4:
            own = [h for h in named if h.owner == o]
            if own:
                return g in own
            o, seen = DEREF.get(o), seen + 1
        if guess(f, x[2]):
            return g.owner not in ('Globals', 'Executor', 'Store')
        return bool(g.owner)
    p = path(x[2]) or ''
    seg = p.split('::')
    if len(seg) >= 2:
        o = tail(seg[-2])
        o = f.owner if o == 'Self' else o
        if any(h.owner == o for h in named):
            return g.owner == o
        return g.owner is None
    return g.owner is None and g.file == f.file


def flat(n, out, cond, pos):
    """Nodes in evaluation order with the chain of conditional regions they are in."""
    if not isinstance(n, list) or not n:
        return
    if not isinstance(n[0], str) or len(n) < 2 or not isinstance(n[1], int):
        for x in n:
            flat(x, out, cond, pos)
        return
    k = n[0]
    if k == 'item':
        return
    if k == 'if':
        flat(n[2], out, cond, pos)
        flat(n[3], out, cond + ((id(n), 0, 'if'),), pos)
        if n[4] is not None:
            flat(n[4], out, cond + ((id(n), 1, 'if'),), pos)
    elif k == 'match':
        flat(n[2], out, cond, pos)
        for i, a in enumerate(n[3]):
            c = cond + ((id(n), i, 'match'),)
            flat(a[3], out, c, pos)
            flat(a[4], out, c, pos)
    elif k in ('for', 'while', 'loop'):
        body = n[-1] if k != 'for' else n[4]
        for x in n[2:]:
            if x is not body:
                flat(x, out, cond, pos)
        flat(body, out, cond + ((id(n), 0, k),), pos)
    elif k == 'bin' and n[2] in ('&&', '||'):
        flat(n[3], out, cond, pos)
        flat(n[4], out, cond + ((id(n), 0, 'and'),), pos)
    elif k == 'local':
        flat(n[3], out, cond, pos)
        if len(n) > 4 and n[4]:
            flat(n[4], out, cond + ((id(n), 0, 'else'),), pos)
    else:
        ccond = cond
        for x in n[2:]:
            if isinstance(x, list) and x and x[0] == 'closure' and not (k == 'mcall' and n[3] in ('with', 'with_borrow', 'with_borrow_mut')):
                flat(x, out, cond + ((id(x), 0, 'closure'),), pos)
            elif isinstance(x, list) and x and not isinstance(x[0], str):
                for y in x:
                    if isinstance(y, list) and y and y[0] == 'closure' and not (k == 'mcall' and n[3] in ('with', 'with_borrow', 'with_borrow_mut')):
                        flat(y, out, cond + ((id(y), 0, 'closure'),), pos)
                    else:
                        flat(y, out, ccond, pos)
            else:
                flat(x, out, ccond, pos)
    out.append((n, cond))


def errs(n):
    """Is this exit the failure of the function, after which nothing was changed?"""
    return n[0] == 'try' or (n[0] == 'return' and n[2] and any(tail(path(c[2]) or '') == 'Err' for c in find(n[2], 'call')))


def arms(body):
    """(tested expression, branch) of every `if let Some(..)` and `Some(..)` arm."""
    for i in find(body, 'if'):
        yield i[2], i[3], i
    for m in choices(body):
        for a in m[3]:
            if a[2][0] == 'pts' and tail(str(a[2][2]).replace(' ', '')) == 'Some':
                yield m[2], a[4], a


class Ver:
    def __init__(self, t):
        self.t = t
        self.orders = {}
        self.sites = {}
        for f in t.fns:
            for x in find(f.body, 'mcall', 'call') if f.body else ():
                self.sites.setdefault(x[3] if x[0] == 'mcall' else tail(path(x[2]) or ''), []).append((f, x))
        self.facts = dict(functions=0, writes=0, fresh=0, calls=0, neutral=0)
        self.bad = []

    def order(self, f):
        if id(f) not in self.orders:
            out = []
            flat(f.body, out, (), 0)
            self.orders[id(f)] = out
        return self.orders[id(f)]

    def bumps(self, bump):
        """Functions that move the version whenever they succeed."""
        names = set([bump] if isinstance(bump, str) else bump)
        known = {}
        todo = list(names)
        while todo:
            for f, x in self.sites.get(todo.pop(), ()):
                if id(f) in known or f.name in names:
                    continue
                for n, c in self.order(f):
                    if n[0] == 'return' and not errs(n):
                        break
                    if not c and self.isbump(f, n, names, known):
                        known[id(f)] = f
                        todo.append(f.name)
                        break
        return names, known

    def isbump(self, f, n, names, known):
        if n[0] == 'mcall':
            nm = n[3]
        elif n[0] == 'call':
            nm = tail(path(n[2]) or '')
        else:
            return False
        if nm in names:
            return True
        c = [g for g in self.t.by_name.get(nm, ()) if id(g) in known]
        named = self.t.by_name.get(nm, ())
        return bool(c) and all(id(g) in known for g in named if resolves(f, n, g, named)) and any(resolves(f, n, g, named) for g in c)

    def fresh(self, f, e, line, seen=()):
        """Does e denote a record of a class created in this function?"""
        if not isinstance(e, list) or not e or len(seen) > 6:
            return False
        k = e[0]
        if k in ('ref', 'un'):
            return self.fresh(f, e[3], line, seen)
        if k in ('paren', 'try'):
            return self.fresh(f, e[2], line, seen)
        if k == 'index':
            return self.fresh(f, e[3], line, seen)
        if k == 'mcall' and e[3] in ('id', 'as_class', 'as_val', 'unwrap', 'clone'):
            return self.fresh(f, e[2], line, seen)
        if k == 'mcall' and e[3] in ('add_class', 'copy_class', 'define_unnamed_class', 'define_unnamed_module'):
            return True
        if k == 'mcall' and e[3] == 'get_metaclass':
            return bool(e[4]) and self.fresh(f, e[4][0], line, seen)
        if k == 'mcall' and e[3] == 'get_singleton':
            return bool(e[4]) and any(x[3] == 'change_class' and last(x[2]) == last(e[4][0]) and x[1] <= e[1] for x in find(f.body, 'mcall'))
        if k == 'path':
            n = e[2].replace(' ', '')
            d = [l for l in find(f.body, 'local') if l[2][0] == 'pident' and l[2][2] == n and l[1] <= line and l[3]]
            return bool(d) and n not in seen and self.fresh(f, d[-1][3], line, seen + (n,))
        return False

    def writes(self, f, fields):
        """(node, base expression) of every change of one of the fields."""
        bound = {}
        for cs, body, node in arms(f.body):
            for g in find(cs, 'mcall'):
                if g[3] == 'get_mut' and g[2][0] == 'field' and g[2][3] in fields:
                    bound[id(g)] = (g, body)
        for n, c in self.order(f):
            for g, body in bound.values():
                if n is body:             # the entry is changed where it is at hand
                    yield n, c, g[2][2]
            if id(n) in bound:
                continue
            if n[0] == 'assign' and n[2][0] == 'field' and n[2][3] in fields:
                yield n, c, n[2][2]
            elif n[0] == 'mcall' and n[3] in MUT and isinstance(n[2], list) and n[2][0] == 'field' and n[2][3] in fields:
                yield n, c, n[2][2]
            elif n[0] == 'ref' and n[2] and n[3][0] == 'field' and n[3][3] in fields:
                yield n, c, n[3][2]

    def covered(self, f, w, cond, names, known):
        o = self.order(f)
        at = next(i for i, (n, c) in enumerate(o) if n is w)
        # before: an unconditional move in a region around the change, with no Ruby code in between
        for i in range(at - 1, -1, -1):
            n, c = o[i]
            if self.isbump(f, n, names, known) and c == cond[:len(c)]:
                return True
            if n[0] in ('mcall', 'call') and RUBY.match(n[3] if n[0] == 'mcall' else tail(path(n[2]) or '') or ''):
                break
        # after: on every way on from the change
        for i in range(at + 1, len(o)):
            n, c = o[i]
            around = c == cond[:len(c)]
            if self.isbump(f, n, names, known) and around:
                return True
            if n[0] in ('return', 'try', 'break', 'continue') and self.compat(c, cond):
                return False
        return False

    @staticmethod
    def compat(a, b):
        for x, y in zip(a, b):
            if x[0] == y[0] and x[1] != y[1]:
                return False
        return True

    def run(self):
        for kind, (fields, where, bump) in KINDS.items():
            names, known = self.bumps(bump)
            todo = []
            for f in self.t.fns:
                if not f.body or not f.file.startswith(where):
                    continue
                n = 0
                for w, c, base in self.writes(f, fields):
                    n += 1
                    self.facts['writes'] += 1
                    if self.fresh(f, base, w[1]):
                        self.facts['fresh'] += 1
                    elif not self.covered(f, w, c, names, known):
                        todo.append((f, w[1], kind))
                self.facts['functions'] += n > 0
            open_ = {}
            for f, line, _ in todo:
                open_.setdefault(id(f), (f, f, line))
            work = list(open_.values())
            done = set(open_)
            while work:
                g, first, line = work.pop()
                if (kind, g.full) in NEUTRAL:
                    self.facts['neutral'] += 1
                    continue
                named = self.t.by_name[g.name]
                sites = 0
                for f, x in self.sites.get(g.name, ()):
                    if not resolves(f, x, g, named):
                        continue
                    sites += 1
                    self.facts['calls'] += 1
                    c = next((c for n, c in self.order(f) if n is x), None)
                    if c is None or self.fresh(f, x[2] if x[0] == 'mcall' else None, x[1]) or self.covered(f, x, c, names, known):
                        continue
                    if id(f) not in done:
                        done.add(id(f))
                        work.append((f, first, line))
                if not sites or any(a.startswith('monoruby_builtin') for a in g.attrs):
                    key = '%s|%s' % (kind, first.full)
                    if key not in [x[0] for x in self.bad]:
                        self.bad.append((key, first.file, line, '%s changes the %s and no move of the version the caches compare goes with it%s'
                                         % (first.full, kind, '' if g is first else ' (reached from %s, %s)' % (g.full, g.file))))
        return self


# ---- readers --------------------------------------------------------------------------------------------------

def counters(t, bad):
    n = 0
    for nm, other in (('class_version', 'const_version'), ('const_version', 'class_version')):
        f = t.fn(nm + '_inc', 'codegen.rs')
        n += 1
        ok = [b for b in find(f.body, 'bin') if b[2] == '+=' and any(x[3] == nm + '_addr' for x in find(b[3], 'field')) and b[4][0] == 'lit'
              and str(b[4][2]).split('u')[0].split('i')[0] == '1']
        ok += [a for a in find(f.body, 'assign') if any(x[3] == nm + '_addr' for x in find(a[2], 'field'))
               and any(b[2] == '+' and any(x[3] == nm + '_addr' for x in find(b, 'field')) for b in find(a[3], 'bin'))]
        ok += [x for x in find(f.body, 'mcall') if x[3] == 'write' and any(y[3] == nm + '_addr' for y in find(x[2], 'field'))]
        if not ok:
            bad.append(('counter|' + nm, 'codegen.rs', f.line, 'the version is not moved by one'))
        g = t.fn(nm + '_inc', 'globals.rs', 'Globals')
        n += 1
        got = {x[3] for x in find(g.body, 'mcall') if x[3].endswith('_version_inc')}
        if got != {nm + '_inc'}:
            bad.append(('wrapper|' + nm, 'globals.rs', g.line, 'moves another version, or none'))
    c = t.fn('const_version_inc', 'globals.rs', 'Globals')
    for f, need in ((c, 'bump_wildcard'), (t.fn('set_constant', 'globals.rs', 'Globals'), 'bump_name'),
                    (t.fn('remove_constant', 'globals.rs', 'Globals'), 'bump_name')):
        n += 1
        if not any(tail(path(x[2]) or '') in ('bump_wildcard', need, 'const_version_inc_for') for x in find(f.body, 'call')):
            bad.append(('epoch|' + f.name, f.file, f.line, 'the names whose resolution changed are not recorded for revalidation'))
    return n


def conj(c):
    if isinstance(c, list) and c and c[0] == 'bin' and c[2] == '&&':
        return conj(c[3]) + conj(c[4])
    if isinstance(c, list) and c and c[0] == 'paren':
        return conj(c[2])
    return [c]


def conds(body):
    """(conjuncts, then-branch) of every test, written as `if` or as a guarded arm."""
    for i in find(body, 'if'):
        yield conj(i[2]), i[3], i
    for m in choices(body):
        for a in m[3]:
            if a[3]:
                yield conj(a[3]) + [['let', a[1], a[2], m[2]]], a[4], a


def eqs(cs):
    for c in cs:
        if c and c[0] == 'bin' and c[2] == '==':
            yield c[3], c[4]
            yield c[4], c[3]


def names(e):
    return {p[2].replace(' ', '') for p in find(e, 'path')}


def memos(t, bad):
    """Answers kept on a class are used only at the version they were found at."""
    n = 0
    setters = [f for f in t.fns if f.file == 'globals/store/class.rs' and f.name.startswith('set_') and f.name.endswith('_at')]
    for s in setters:
        getter = s.name[4:]
        for f in t.fns:
            if not f.body or f.file != 'globals/store.rs':
                continue
            gets = [x for x in find(f.body, 'mcall') if x[3] == getter]
            sets = [x for x in find(f.body, 'mcall') if x[3] == s.name]
            if not gets and not sets:
                continue
            params = [p for p in f.params if 'u32' in str(p)]
            pn = set()
            for p in f.params:
                for q in find(p, 'pident'):
                    pn.add(q[2])
                if isinstance(p, list) and p and isinstance(p[0], str) and 'u32' in str(p):
                    pn.add(p[0])
            for g in gets:
                n += 1
                ok = False
                for cs, body, node in conds(f.body):
                    vs = set()
                    for c in cs:
                        if c and c[0] == 'let' and any(x is g for x in find(c[3], 'mcall')):
                            vs = {q[2] for q in find(c[2], 'pident')}
                    for a, b in eqs(cs):
                        if any(x is g for x in find(a, 'mcall')) and 'version' in names(b):
                            ok = True
                        if vs & names(a) and 'version' in names(b):
                            ok = True
                if not ok:
                    bad.append(('memo|%s|%s' % (f.name, getter), f.file, g[1], '%s: an answer kept on the class is used without comparing the version it was found at' % f.name))
            for x in sets:
                n += 1
                if not x[4] or 'version' not in names(x[4][0]):
                    bad.append(('memo|%s|%s' % (f.name, s.name), f.file, x[1], '%s: an answer is kept under another version than the current one' % f.name))
    # the current version is what callers pass
    users = {f.name for f in t.fns if f.file == 'globals/store.rs' and any(x[3].endswith('_at') and x[3].startswith('set_') for x in find(f.body, 'mcall'))}
    users |= {'check_method_for_class_with_version'}
    for f in t.fns:
        if not f.body:
            continue
        for x in find(f.body, 'mcall'):
            if x[3] not in users or not x[4]:
                continue
            a = x[4][-1]
            n += 1
            if not current(f, a, x[1]):
                bad.append(('current|%s|%s' % (f.full, x[3]), f.file, x[1], '%s asks with a version that is not the current one' % f.full))
    # the global table is emptied when the version has moved
    g = t.fn('get', 'globals/store.rs', 'GlobalMethodCache')
    n += 1
    ok = False
    for i in find(g.body, 'if'):
        c = i[2]
        if c[0] == 'bin' and c[2] in ('!=', '==') and {'version'} & {y[3] for y in find(c, 'field')} and 'class_version' in names(c):
            br = i[3] if c[2] == '!=' else i[4]
            if br and any(y[3] == 'clear' for y in find(br, 'mcall')):
                ok = True
    if not ok:
        bad.append(('table|get', g.file, g.line, 'the table of found methods is not emptied when the version has moved'))
    # constants: all three parts of the key are compared before the kept value is used
    for nm in ('vm_get_constant', 'vm_check_constant'):
        f = t.fn(nm, 'codegen/runtime.rs')
        rets = []

        def uses(b):
            return [y for y in find(b, 'field') if y[3] == 'value' and last(y[2]) == 'cache']
        n += 1
        ok = False
        for cs, body, node in conds(f.body):
            if not uses(body):
                continue
            got = set()
            for a, b in eqs(cs):
                for y in find(a, 'field'):
                    if y[3] == 'version' and 'const_version' in names(b):
                        got.add('version')
                    if y[3] == 'base_class' and 'base_class' in names(b):
                        got.add('base_class')
                    if y[3] == 'self_class' and names(b):
                        got.add('self_class')
            if got == {'version', 'base_class', 'self_class'}:
                ok = True
        if not ok:
            bad.append(('constant|' + nm, f.file, f.line, '%s uses the kept value without comparing version, base and scope' % nm))
        for s in find(f.body, 'struct'):
            if tail(str(s[2]).replace(' ', '')) == 'ConstCache':
                n += 1
                d = dict((x[0], x[1]) for x in s[3]) if s[3] and isinstance(s[3][0][0], str) else {}
                v = d.get('version')
                if v is not None and 'const_version' not in names(v):
                    bad.append(('constant|%s|stored' % nm, f.file, s[1], '%s keeps the value under another version' % nm))
    return n


def current(f, a, line, seen=()):
    if not isinstance(a, list):
        return False
    if a[0] in ('paren', 'ref', 'cast', 'un'):
        return current(f, a[3] if a[0] in ('ref', 'un') else a[2], line, seen)
    if a[0] == 'mcall':
        return a[3] == 'class_version'
    if a[0] == 'call':
        return tail(path(a[2]) or '') == 'class_version'
    if a[0] == 'path':
        n = a[2].replace(' ', '')
        d = [l for l in find(f.body, 'local') if l[2][0] == 'pident' and l[2][2] == n and l[1] <= line and l[3]]
        if d and n not in seen:
            return current(f, d[-1][3], line, seen + (n,))
        return not d and 'version' in n          # handed in by the caller
    return False


def emitted(t, bad):
    """Machine code that compares a version leaves the cached answer when the two differ."""
    n = 0
    for f in t.fns:
        if not f.body or not f.file.startswith('codegen/arch/'):
            continue
        vs = set()
        for l in find(f.body, 'local'):
            if l[3] and any(x[3] in ('class_version_label', 'const_version_label') for x in find(l[3], 'mcall')) and l[2][0] == 'pident':
                vs.add(l[2][2])
        if not vs:
            continue
        seq = [x for x in order(f.body)]
        for i, x in enumerate(seq):
            if x[0] != 'macro' or not x[2].startswith('monoasm'):
                continue
            txt = re.sub(r'^\s*&\s*mut\s+self\s*\.\s*jit\s*,', '', x[3])
            ins = [re.sub(r'^(\w+ ?: ?)+', '', re.sub(r'\s+', ' ', s).strip()) for s in txt.split(';')]
            regs = set()
            for k, s in enumerate(ins):
                if '64' not in x[2]:
                    refs = any(re.search(r'rip \+ %s\b' % v, s) for v in vs)
                    m = re.match(r'mov\w* (\w+) ?, ?\[ ?rip', s)
                    if refs and m:
                        regs.add(m.group(1))
                    if re.match(r'cmp\w*', s) and (refs or any(re.search(r'\b%s\b' % r, s) for r in regs)):
                        n += 1
                        nx = ins[k + 1] if k + 1 < len(ins) else ''
                        if not re.match(r'j(ne|nz) ', nx):
                            bad.append(('emitted|%s|%s' % (f.file.split('/')[2], f.name), f.file, x[1], '%s: the cached answer is kept although the version differs' % f.name))
                else:
                    if any(re.search(r'\(\s*%s\s*\)' % v, s) for v in vs):
                        regs.add('on')
                    if s.startswith('cmp ') and regs:
                        n += 1
                        nx = seq[i + 1] if i + 1 < len(seq) else None
                        inline = ins[k + 1] if k + 1 < len(ins) else ''
                        good = re.match(r'b\.?ne ', inline)
                        if not inline and nx and nx[0] == 'mcall' and nx[3] == 'bcond_label':
                            good = tail(path(nx[4][0]) or '') == 'Ne'
                        if not good:
                            bad.append(('emitted|%s|%s' % (f.file.split('/')[2], f.name), f.file, x[1], '%s: the cached answer is kept although the version differs' % f.name))
                        regs = set()
    return n


def order(n):
    """Macros and branch emissions in source order."""
    if isinstance(n, list) and n:
        if isinstance(n[0], str) and n[0] == 'item':
            return
        if isinstance(n[0], str) and (n[0] == 'macro' or (n[0] == 'mcall' and n[3] in ('bcond_label',))):
            yield n
            return
        for x in n:
            yield from order(x)


def c34(t):
    v = Ver(t).run()
    bad = v.bad
    facts = dict(v.facts)
    facts['counters'] = counters(t, bad)
    facts['readers'] = memos(t, bad)
    facts['emitted'] = emitted(t, bad)
    return bad, facts
