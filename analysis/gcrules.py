"""C20, C21: what the collector marks and frees, against what the types hold.

C20: for every type with a marking function, each field that can hold an object
reference must flow into a marking call of that function, not only under a
condition on something else.  C21: the payload a type tag stands for is read off
the constructors; freeing, marking and copying must use that very payload for
that tag, and payloads that own memory must be dropped.
"""
import re

import framework
from syntree import choices, find, path, tail

WORD = re.compile(r'[A-Za-z_][A-Za-z_0-9]*')
# values of these types are references to collected objects (or frames full of them)
REFS = {'Value', 'RValue', 'Lfp', 'Cfp', 'BlockHandler'}
# allocation owned through these
OWNERS = {'Box', 'Vec', 'String', 'BigInt', 'HashMap', 'HashSet', 'IndexMap', 'IndexSet', 'VecDeque', 'Rc', 'Arc', 'SmallVec',
          'MonoVec', 'BTreeMap', 'CString', 'PathBuf', 'OsString', 'File', 'Child', 'RubyMap', 'RubySet'}


def words(ty):
    """Identifiers of a type, without function pointer types and phantom parameters."""
    ty = re.sub(r'PhantomData\s*<[^<>]*>', '', ty)
    ty = re.sub(r'\b(fn|Fn|FnMut|FnOnce)\s*\([^()]*\)(\s*->\s*[A-Za-z_:<> ]*)?', '', ty)
    return WORD.findall(ty)


class Types:
    def __init__(self, t):
        self.t = t
        self.fields = {}          # type name -> [(path, type)]
        self.alias = {}
        self.kind = {}
        for f, line, name, attrs, fs in t.structs:
            self.fields.setdefault(name, []).extend((x[0], x[1]) for x in fs)
            self.kind[name] = 'struct'
        for f, line, name, attrs, vs in t.enums:
            for v in vs:
                for x in v[1]:
                    self.fields.setdefault(name, []).append(((v[0], x[0]), x[1]))
            self.kind[name] = 'enum'
        for f, line, name, attrs, fs in t.unions:
            self.fields.setdefault(name, []).extend((x[0], x[1]) for x in fs)
            self.kind[name] = 'union'
        self.fields['Complex'] = [('re', 'Real'), ('im', 'Real')]
        self.bearing = self.closure(REFS)
        self.owning = self.closure(OWNERS, {i[2] for i in t.impls if i[3] and tail(i[3]) == 'Drop'})

    def closure(self, base, more=()):
        s = set(base) | set(more)
        while True:
            new = {n for n, fs in self.fields.items() if n not in s and any(set(words(ty)) & s for _, ty in fs)}
            if not new:
                return s
            s |= new

    def bears(self, ty):
        return any(w in self.bearing for w in words(ty))


class Marks:
    """Which parts of its receiver (and parameters) a marking function marks."""

    def __init__(self, t, types):
        self.t, self.types = t, types
        self.fns = {}
        for f in t.fns:
            if f.body and f.owner and f.name.startswith('mark') and f.params and f.params[0][0] == 'self':
                if any('Allocator' in ty for _, ty in f.params) or self.taker(f):
                    self.fns.setdefault(self.base(f.owner), []).append(f)

    @staticmethod
    def taker(f):
        """Name of the parameter that is called with every reference."""
        for p, ty in f.params:
            n = p.replace('mut ', '')
            if ty.strip() in ('F',) or 'FnMut' in ty or 'Fn(' in ty.replace(' ', ''):
                return n
        return None

    @staticmethod
    def base(owner):
        return owner.split('<')[0].split('::')[-1]

    def of(self, f):
        """[(origin path, guards)] marked, where an origin is a tuple starting at 'self'."""
        self.out = []
        self.f = f
        self.inside = [f]
        self.allocs = {p.replace('mut ', '') for p, ty in f.params if 'Allocator' in ty}
        k = self.taker(f)
        if k:
            self.allocs.add(k)
        self.closures = {k} if k else set()
        env = {'self': {('self',)}}
        self.stmts(f.body, env, [])
        return self.out

    def hit(self, os, guards):
        for o in os:
            self.out.append((o, tuple(g for g in guards if not (g and all(x[:2] == o[:2] or x == o[:len(x)] for x in g)))))

    def bind(self, p, os, env):
        k = p[0]
        if k == 'pident':
            env[p[2]] = set(os)
            if len(p) > 3 and p[3]:
                self.bind(p[3], os, env)
        elif k == 'pts':
            v = tail(p[2].replace(' ', ''))
            for i, x in enumerate(p[3]):
                self.bind(x, os if v in ('Some', 'Ok', 'Err') else {o + (v, str(i)) for o in os}, env)
        elif k == 'pstruct':
            v = tail(p[2].replace(' ', ''))
            own = v in self.types.fields
            for name, x in p[3]:
                self.bind(x, {o + ((name,) if own else (v, name)) for o in os}, env)
        elif k == 'ptuple':
            for i, x in enumerate(p[2]):
                self.bind(x, {o + ('#%d' % i,) for o in os}, env)
        elif k in ('por', 'pslice'):
            new = {}
            for x in p[2]:
                e = {}
                self.bind(x, os, e)
                for v, o in e.items():
                    new[v] = new.get(v, set()) | o
            env.update(new)
        elif k == 'ptype':
            self.bind(p[2], os, env)

    def ev(self, n, env, guards):
        """Origins an expression's value comes from; records marking calls on the way."""
        if not isinstance(n, list) or not n or not isinstance(n[0], str):
            return set()
        k = n[0]
        if k == 'path':
            return env.get(n[2].replace(' ', ''), set())
        if k == 'field':
            return {o + (n[3],) for o in self.ev(n[2], env, guards)}
        if k == 'mcall':
            r = self.ev(n[2], env, guards)
            acts = any(a in self.allocs for x in n[4] for a in self.names(x))
            same = [g for g in self.t.by_name.get(n[3], ()) if g.owner and self.base(g.owner) == self.base(self.f.owner) and g.body]
            if r == {('self',)} and acts and path(n[2]) == 'self' and same:
                for g in same:
                    if g not in self.inside:
                        self.inside.append(g)
                        self.stmts(g.body, {'self': r}, guards)
                        self.inside.pop()
            elif n[3].startswith('mark') and acts:
                self.hit(r, guards)
            got = set(r)
            for a in n[4]:
                if a[0] == 'closure':
                    e = dict(env)
                    for p in a[2]:
                        self.bind(p, r, e)
                    got |= self.ev(a[3], e, guards)
                else:
                    s = self.ev(a, env, guards)
                    if path(n[2]) in self.allocs:
                        self.hit(s, guards)
                    got |= s
            return got
        if k == 'call':
            p = path(n[2])
            args = [self.ev(a, env, guards) for a in n[3]]
            if p in self.closures or any(path(a) in self.allocs for a in n[3]) and self.marks_params(p, len(n[3])):
                for s in args:
                    self.hit(s, guards)
            return set().union(*args) if args else set()
        if k == 'unsafe':
            return self.stmts(n, dict(env), guards)
        if k in ('ref', 'try', 'un', 'cast'):
            return set().union(*[self.ev(x, env, guards) for x in n[2:] if isinstance(x, list)], set())
        if k == 'block':
            return self.stmts(n, dict(env), guards)
        if k == 'if':
            e = dict(env)
            g = self.cond(n[2], e, guards)
            a = self.ev(n[3], e, guards + [g])
            b = self.ev(n[4], dict(env), guards + [g]) if n[4] else set()
            return a | b
        if k == 'match':
            s = self.ev(n[2], env, guards)
            out = set()
            for a in n[3]:
                e = dict(env)
                self.bind(a[2], s, e)
                g = guards + [s]
                if a[3]:
                    g = g + [self.cond(a[3], e, guards)]
                out |= self.ev(a[4], e, g)
            return out
        if k == 'for':
            s = self.ev(n[3], env, guards)
            e = dict(env)
            self.bind(n[2], s, e)
            self.ev(n[4], e, guards)
            return set()
        if k == 'while':
            e = dict(env)
            g = self.cond(n[2], e, guards)
            self.ev(n[3], e, guards + [g])
            return set()
        if k == 'assign':
            s = self.ev(n[3], env, guards)
            if path(n[2]):
                env[path(n[2])] = env.get(path(n[2]), set()) | s
            return set()
        if k == 'closure':
            return self.ev(n[3], dict(env), guards)
        if k in ('tuple', 'array'):
            return set().union(set(), *[self.ev(x, env, guards) for x in n[2]])
        out = set()
        for x in n[2:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    out |= self.ev(x, env, guards)
                else:
                    for y in x:
                        out |= self.ev(y, env, guards)
        return out

    def names(self, n):
        return {path(x) for x in find(n, 'path')}

    def marks_params(self, p, arity):
        return p is not None

    def cond(self, n, env, guards):
        """Origins a condition is about; binds the names of `let` conditions."""
        if n[0] == 'let':
            s = self.ev(n[3], env, guards)
            self.bind(n[2], s, env)
            return s
        if n[0] == 'bin' and n[2] in ('&&', '||'):
            return self.cond(n[3], env, guards) | self.cond(n[4], env, guards)
        s = self.ev(n, env, guards)
        return s or {('?',)}

    def stmts(self, b, env, guards):
        out = set()
        guards = list(guards)
        for s in b[2]:
            if s[0] == 'local':
                v = self.ev(s[3], env, guards) if s[3] else set()
                self.bind(s[2], v, env)
            elif s[0] in ('semi', 'tail'):
                out = self.ev(s[2], env, guards)
                if s[2][0] == 'if' and any(True for _ in find(s[2], 'return')):
                    guards.append(self.cond(s[2][2], dict(env), guards) or {('?',)})
        return out


# marks that depend on something else, confirmed: (type, field) -> why that is enough
CONDITIONAL = {
    ('Scheduler', 'main_exec'): 'outside the scheduler the main executor is the running one and marked as such',
    ('BindingInner', 'outer_lfp'): 'the frame of the binding itself has that frame as its outer frame',
}
# references that need no marking from here, confirmed: (type, field) -> why
EXEMPT = {
    ('Executor', 'parent_fiber'): 'an executor owned by a fiber object in its resumer\'s frames',
    ('Executor', 'resuming_fiber'): 'an executor owned by a fiber object held by the resuming frame',
    ('Executor', 'return_to'): 'an executor owned by a fiber object in its resumer\'s frames',
    ('Executor', 'thread_root'): 'marked by the root set, which asks the running executor for it',
    ('Executor', 'root_lep'): 'only compared, never followed',
    ('Executor', 'break_barriers'): 'only compared, never followed',
    ('FiberInner', 'handle.Root.0'): 'an alias of an executor marked through its owner',
    ('ThreadInner', 'resume_exec'): 'an alias of the thread\'s own executor or of one owned by a fiber in its frames',
}


# the interior of a hash is reached through its accessors
INTERIOR = {'HashRef': {('self', '#0'), ('self', '#1'), ('self', 'Proc', '0'), ('self', 'Value', '0')}}


def components(ty):
    """Components of the first tuple inside a type."""
    i = ty.find('(')
    if i < 0:
        return []
    out, depth, cur = [], 0, ''
    for c in ty[i + 1:]:
        if c in '([<':
            depth += 1
        if c in ')]>':
            if c == ')' and depth == 0:
                break
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur] if cur.strip() else out


def c20(t):
    T = Types(t)
    M = Marks(t, T)
    bad, done, fields = [], 0, 0
    for own, fs in sorted(M.fns.items()):
        if own not in T.fields or own in REFS:
            continue
        f = next((x for x in fs if x.name == 'mark'), fs[0])
        got = M.of(f)
        done += 1

        def need(pre, name, depth):
            nonlocal fields
            for k, ty in T.fields[name]:
                if not T.bears(ty):
                    continue
                p = pre + (k if isinstance(k, tuple) else (k,))
                fields += depth == 0
                if (own, '.'.join(p[1:])) in EXEMPT:
                    continue
                hits = [(o, g) for o, g in got if o == p[:len(o)]]
                parts = components(ty)
                if not hits and len(parts) > 1:
                    # a container of tuples: every component that holds references
                    each = [[(o, g) for o, g in got if o == p + ('#%d' % i,)] for i, x in enumerate(parts) if T.bears(x)]
                    if each and all(each):
                        hits = [h for e in each for h in e]
                if hits:
                    if all(g for _, g in hits) and (own, '.'.join(p[1:])) not in CONDITIONAL:
                        bad.append((f, own, p, 'conditional', hits[0][1]))
                    continue
                sub = [w for w in words(ty) if w in T.bearing and w in T.fields and w not in REFS]
                if any(o[:len(p)] == p for o, _ in got) and sub and depth < 3:
                    for w in sub:
                        if w not in M.fns:
                            need(p, w, depth + 1)
                    continue
                bad.append((f, own, p, 'unmarked', ty))
        if own in INTERIOR:
            for p in sorted(INTERIOR[own] - {o for o, g in got if not g or o[:2] != ('self',)}):
                bad.append((f, own, p, 'unmarked', 'part of the interior'))
            continue
        need(('self',), own, 0)
    return dict(types=done, fields=fields, bad=bad, bearing=len(T.bearing))


class Tags:
    """Type tag -> payload, from the constructors."""

    def __init__(self, t):
        self.t = t
        self.file = 'value/rvalue.rs'
        u = [x for x in t.unions if x[2] == 'ObjKind']
        if not u:
            raise framework.AnchorMissing('union ObjKind')
        self.types = {k: ty for k, ty in u[0][4]}
        self.makers = {}
        for f in t.fns:
            if f.owner == 'ObjKind' and f.body:
                fs = {x[3][0][0] for x in find(f.body, 'struct') if tail(x[2].replace(' ', '')) in ('Self', 'ObjKind') and x[3]}
                if len(fs) == 1:
                    self.makers[f.name] = fs.pop()
        for _ in range(3):
            for f in t.fns:
                if f.owner == 'ObjKind' and f.body and f.name not in self.makers:
                    fs = {self.makers.get(tail(path(c[2]))) for c in find(f.body, 'call') if path(c[2])
                          and path(c[2]).split('::')[0] in ('Self', 'ObjKind')} - {None}
                    if len(fs) == 1:
                        self.makers[f.name] = fs.pop()
        self.access = {}
        for f in t.fns:
            if f.owner == 'RValue' and f.body and f.name.startswith('as_'):
                fs = {x[3] for x in find(f.body, 'field') if is_kind(x[2])}
                if len(fs) == 1:
                    self.access[f.name] = fs.pop()
        for n, g in (('as_hashmap', 'hash'), ('as_hashmap_mut', 'hash')):
            self.access.setdefault(n, g)
        self.tag, self.made = {}, []
        for f in t.fns:
            if f.body is None or not f.file.startswith('value'):
                continue
            for x in find(f.body, 'struct'):
                if tail(x[2].replace(' ', '')) not in ('RValue', 'Self'):
                    continue
                fs = {k: v for k, v in x[3]}
                if 'kind' not in fs or 'header' not in fs:
                    continue
                h = fs['header']
                if path(h):
                    h = next((l[3] for l in find(f.body, 'local') if l[2][0] == 'pident' and l[2][2] == path(h)), h)
                tags = tagset(h)
                pay = self.payloads(fs['kind'])
                if len(tags) == 1 and len(pay) == 1:
                    self.made.append((f, x[1], tags[0], pay[0]))
                    self.tag.setdefault(tags[0], set()).add(pay[0])

    def payloads(self, n):
        """Payload fields an expression builds or reaches through a payload accessor of the object."""
        out = set()
        for x in find(n, 'struct'):
            if tail(x[2].replace(' ', '')) == 'ObjKind':
                out |= {k for k, _ in x[3]}
        for x in find(n, 'call'):
            p = path(x[2])
            if p and p.startswith('ObjKind::') and tail(p) in self.makers:
                out.add(self.makers[tail(p)])
        return sorted(out)

    def touched(self, n):
        """Payload fields read in an expression, through the union or an accessor of `self`."""
        out = [(x[3], x[1]) for x in find(n, 'field') if is_kind(x[2]) and x[3] in self.types]
        out += [(self.access[x[3]], x[1]) for x in find(n, 'mcall') if x[3] in self.access and path(x[2]) == 'self']
        return out


def is_kind(n):
    return n[0] == 'field' and n[3] == 'kind'


def tagset(n):
    out = []
    for x in find(n, 'path', 'ppath'):
        p = x[2].replace(' ', '')
        if p.startswith('ObjTy::') and p not in out:
            out.append(p)
    return [p[7:] for p in out]


def c21(t):
    T, G = Types(t), Tags(t)
    bad, arms, acc = [], 0, 0
    for tag, fs in sorted(G.tag.items()):
        if len(fs) > 1:
            f = next(m for m in G.made if m[2] == tag)
            bad.append((f[0], f[1], 'construct|' + tag, 'objects tagged %s are built with different payloads: %s' %
                        (tag, ', '.join(sorted(fs)))))
    one = {tag: next(iter(fs)) for tag, fs in G.tag.items() if len(fs) == 1}
    if not G.tag:
        raise framework.AnchorMissing('constructors of objects')
    seen = {}
    for f in t.fns:
        if f.body is None or not f.file.startswith('value') or f.owner != 'RValue':
            continue
        for m in choices(f.body):
            if not any(tagset(a[2]) for a in m[3]):
                continue
            for a in m[3]:
                tags = tagset(a[2])
                if not tags:
                    continue
                arms += 1
                seen.setdefault(f.name, {}).update({x: a for x in tags})
                for field, line in G.touched(a[4]) + [(p, a[1]) for p in G.payloads(a[4])]:
                    acc += 1
                    for tag in tags:
                        if tag in one and one[tag] != field:
                            bad.append((f, line, 'arm|%s|%s|%s' % (f.name, tag, field),
                                        '%s treats the payload of an object tagged %s as `%s`; such objects are built with `%s`'
                                        % (f.name, tag, field, one[tag])))
    for name in ('free', 'mark_children', 'dup', 'clone_value', 'deep_copy'):
        if name not in seen:
            raise framework.AnchorMissing('dispatch on the type tag in RValue::' + name)
    owned = 0
    free = t.fn('free', G.file, 'RValue')
    for tag, field in sorted(one.items()):
        ty = G.types[field]
        if not any(w in T.owning for w in words(ty)):
            continue
        owned += 1
        a = seen['free'].get(tag)
        if a is None or not any(k == field for k, _ in G.touched(a[4])) or not drops(a[4]):
            bad.append((free, free.line, 'leak|' + tag, 'objects tagged %s own memory through `%s` (%s) that free does not release'
                        % (tag, field, ty)))
    frame = seen['free'].get('FRAME')
    if 'FRAME' in one and (frame is None or not drops(frame[4])):
        bad.append((free, free.line, 'leak|FRAME', 'the buffer of a promoted frame is not released'))
    if not any(x[2][0] == 'field' and x[2][3] == 'var_table' for x in find(free.body, 'assign')):
        bad.append((free, free.line, 'leak|var_table', 'free does not release the table of instance variables'))
    # copies share no payload: each arm of a copy builds a payload
    for name in ('dup', 'clone_value', 'deep_copy'):
        f = t.fn(name, G.file, 'RValue')
        for tag, a in sorted(seen[name].items()):
            if not G.payloads(a[4]):
                bad.append((f, a[1], 'copy|%s|%s' % (name, tag), '%s builds no payload for tag %s' % (name, tag)))
    return dict(G=G, one=one, seen=seen, arms=arms, accesses=acc, owned=owned, bad=bad, types=T)


def drops(n):
    return any(tail(path(c[2]) or '').startswith('drop') for c in find(n, 'call'))


def dispatch(t):
    """C20, second half: marking of the payload of every type tag."""
    r = c21(t)
    G, one, T, bad = r['G'], r['one'], r['types'], []
    f = t.fn('mark_children', G.file, 'RValue')
    n = 0
    for tag, field in sorted(one.items()):
        a = r['seen']['mark_children'].get(tag)
        if a is None:
            bad.append((f, f.line, 'tag|' + tag, 'objects tagged %s reach no arm of mark_children' % tag))
            continue
        bears = any(w in T.bearing for w in words(G.types[field])) or field == 'frame'
        if not bears:
            continue
        n += 1
        marks = [x for x in find(a[4], 'mcall') if x[3].startswith('mark')]
        if not marks or field not in [k for k, _ in G.touched(a[4])]:
            bad.append((f, a[1], 'payload|' + tag, 'the references in the payload `%s` of objects tagged %s are not marked' %
                        (field, tag)))
    got = any(x[2][0] != 'match' and any(y[3] == 'var_table' for y in find(x, 'field')) and
              any(y[3].startswith('mark') for y in find(x, 'mcall'))
              for x in find(f.body, 'if', 'for', 'mcall'))
    if not got:
        bad.append((f, f.line, 'ivars', 'instance variables are not marked'))
    return n, bad


if __name__ == '__main__':
    import syntree
    t = syntree.tree()
    r = c20(t)
    print(r['types'], r['fields'], r['bearing'])
    for f, own, p, kind, x in r['bad']:
        print(f.where, own, '.'.join(p), kind, x)
    r = c21(t)
    print(len(r['G'].made), r['one'], r['arms'], r['accesses'], r['owned'], {k: len(v) for k, v in r['seen'].items()})
    for b in r['bad'] + dispatch(t)[1]:
        print(b[0].file, b[1:])
