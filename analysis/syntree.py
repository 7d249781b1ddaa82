"""Syntax trees of the interpreter crate, as written by tools/synq, with name resolution by file and name.

Every node is a list [kind, line, ...].  Code under `#[cfg(test)]` and test functions are left out.
"""
import json
import os
import subprocess
import sys
import tempfile
import framework

_cache = {}


class Fn:
    __slots__ = ('file', 'line', 'name', 'attrs', 'params', 'ret', 'body', 'owner', 'trait', 'mod')

    def __init__(self, file, node, owner, trait, mod):
        self.file, self.line, self.name, self.attrs = file, node[1], node[2], node[3]
        self.params = [[p[0][4:] if p[0].startswith('mut ') else p[0]] + p[1:] for p in node[4]]
        self.ret, self.body = node[5], ending(normal(node[6]))
        self.owner, self.trait, self.mod = owner, trait, mod

    def __repr__(self):
        return '%s:%d %s' % (self.file, self.line, self.full)

    @property
    def full(self):
        return (self.owner + '::' if self.owner else '') + self.name

    @property
    def where(self):
        return 'monoruby/src/%s:%d' % (self.file, self.line)


def testing(attrs):
    return any(a == 'test' or a.replace(' ', '').startswith('cfg(test') for a in attrs)


class Tree:
    def __init__(self, files):
        self.files = files
        self.fns, self.structs, self.enums, self.unions, self.consts, self.impls = [], [], [], [], [], []
        self.uses, self.macros = {}, []
        for f, items in sorted(files.items()):
            for i in items:
                self.item(f, i, None, None, ())
        self.by_name = {}
        self.folded = fold(self.fns)
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)

    def item(self, f, n, owner, trait, mod):
        k = n[0]
        if k == 'fn':
            if testing(n[3]):
                return
            fn = Fn(f, n, owner, trait, mod)
            self.fns.append(fn)
            for x in find(fn.body, 'item'):
                self.item(f, x[2], owner, trait, mod + (fn.name,))
        elif k == 'impl':
            if testing(n[4]):
                return
            own, tr = n[2].replace(' ', ''), n[3].replace(' ', '') if n[3] else None
            self.impls.append((f, n[1], own, tr, n[5]))
            for i in n[5]:
                self.item(f, i, own, tr, mod)
        elif k == 'trait':
            for i in n[3]:
                self.item(f, i, n[2], n[2], mod)
        elif k == 'mod':
            if n[4] and not testing(n[3]):
                for i in n[4]:
                    self.item(f, i, None, None, mod + (n[2],))
        elif k == 'structdef':
            self.structs.append((f, n[1], n[2], n[3], n[4]))
        elif k == 'uniondef':
            self.unions.append((f, n[1], n[2], n[3], n[4]))
        elif k == 'enumdef':
            self.enums.append((f, n[1], n[2], n[3], n[4]))
        elif k in ('const', 'static'):
            self.consts.append((f, n[1], n[2], n[3], n[4], owner))
        elif k == 'macroitem':
            self.macros.append((f, n[1], n[2], n[3]))
        elif k == 'use':
            self.uses.setdefault(f, []).append(n[2])

    def fn(self, name, file=None, owner=None):
        c = [x for x in self.by_name.get(name, ()) if (file is None or x.file == file) and
             (owner is None or x.owner == owner)]
        if not c:
            raise framework.AnchorMissing('function %s%s' % (name, ' in ' + file if file else ''))
        return c[0]

    def enum(self, name, file=None):
        c = [e for e in self.enums if e[2] == name and (file is None or e[0] == file)]
        if not c:
            raise framework.AnchorMissing('enum ' + name)
        return c[0]


def listed():
    out = set()
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.txt')) as f:
        for l in f:
            if not l.startswith('#'):
                file, names = l.rstrip('\n').split('\t')
                out |= {(file, x) for x in names.split(' ')}
    return out


def fold(fns):
    """Functions split off since the rules were written are read as part of the functions of the same file that call them
    (up to three calls each): a call in tail position or under `?` takes in any body, another call one without early exits."""
    old = listed()
    gone = 0
    for _ in range(3):
        new = {}
        for f in fns:
            if f.body and (f.file, f.full.replace(' ', '')) not in old and f.trait is None:
                new.setdefault((f.file, f.owner, f.name), []).append(f)
        new = {k: v[0] for k, v in new.items() if len(v) == 1}
        if not new:
            break
        names = {}
        for k in new:
            names.setdefault(k[2], []).append(k)
        uses, made = {}, {}
        for f in fns:
            for n in find(f.body, 'path', 'mcall', 'call'):
                p = n[2].replace(' ', '') if n[0] == 'path' else n[3] if n[0] == 'mcall' else path(n[2])
                x = tail(p) if p else None
                if x not in names:
                    continue
                if n[0] == 'mcall':
                    own = [f.owner] if n[2][0] == 'path' and n[2][2] == 'self' else None
                elif '::' in p:
                    own = [f.owner] if p == 'Self::' + x else [k[1] for k in names[x] if k[1] and p.rsplit('::', 1)[0] == tail(k[1])]
                else:
                    own = [None]
                for k in names[x]:
                    if k[0] == f.file and (own is None or k[1] in own):
                        (uses if n[0] == 'path' else made).setdefault(k, []).append((f, n))
        done, values = 0, {id(v) for v in new.values()}
        for k, h in sorted(new.items(), key=str):
            at = [(f, c) for f, c in made.get(k, ()) if f is not h]
            if not at or len(at) > 3 or len(made[k]) != len(at) or any(id(f) in values for f, c in at) or \
                    len(uses.get(k, ())) != len([c for f, c in at if c[0] == 'call']):
                continue
            if all([take(f, c, h) for f, c in at]):
                fns.remove(h)
                done += 1
        gone += done
        if not done:
            break
    return gone


def take(f, c, h):
    """Put the body of h in the place of its call c in f."""
    import copy
    args = c[3] if c[0] == 'call' else [c[2]] + c[4]
    if len(args) != len(h.params):
        return False
    body = copy.deepcopy(h.body)
    sub, first = {}, []
    for p, a in zip(h.params, args):
        x = a
        while x[0] in ('ref', 'paren', 'field') or x[0] == 'un' and x[2] == '*':
            x = x[2] if x[0] in ('paren', 'field') else x[3]
        if x[0] != 'path':
            first.append(['local', c[1], ['pident', c[1], p[0], None], a, None])
        elif a != ['path', a[1], p[0]]:
            sub[p[0]] = a
    if sub:
        if any(n[2] in sub for n in find(body, 'pident')):
            return False
        body = put(body, sub)
    place = spot(f.body, c, True)
    if place is None or place == 'inner' and any(True for _ in find(body, 'return', 'try')):
        return False
    c[:] = ['block', c[1], first + body[2]]
    f.body = flat(f.body)
    return True


def put(n, sub):
    if n and n[0] == 'path' and len(n) > 2 and n[2] in sub:
        return sub[n[2]]
    if n and n[0] == 'un' and n[2] == '*' and n[3][0] == 'path' and sub.get(n[3][2], ' ')[0] == 'ref':
        return sub[n[3][2]][3]
    return [put(x, sub) if isinstance(x, list) else x for x in n]


def spot(n, c, last):
    """Where c stands in n: 'tail', 'try' or 'inner' (None if it is not there)."""
    if n is c:
        return 'tail' if last else 'inner'
    if not isinstance(n, list) or not n:
        return None
    k = n[0] if isinstance(n[0], str) else None
    if k == 'try' and n[2] is c:
        return 'try'
    if k in ('block', 'unsafe'):
        for i, st in enumerate(n[2]):
            r = spot(st, c, last and i == len(n[2]) - 1 and st[0] == 'tail')
            if r:
                return r
        return None
    for i, x in enumerate(n):
        if isinstance(x, list):
            keep = k in ('tail', 'paren') or k == 'return' or k == 'if' and i > 2 and last or k == 'match' and i == 3 and last
            keep = keep or k == 'arm' and i == 4 and last or k is None and last
            r = spot(x, c, (last or k == 'return') and keep)
            if r:
                return r
    return None


def flat(b):
    """A block that ends in a block is one block."""
    while b[0] in ('block', 'unsafe') and b[2] and b[2][-1][0] == 'tail' and b[2][-1][2][0] == 'block':
        b = [b[0], b[1], b[2][:-1] + b[2][-1][2][2]] + list(b[3:])
    return b


def block(n):
    return n if n[0] in ('block', 'unsafe') else ['block', n[1], [['tail', n[1], n]]]


def bare(n):
    """The expression inside parentheses or a block holding nothing else."""
    while n and (n[0] == 'paren' or n[0] == 'block' and len(n[2]) == 1 and n[2][0][0] == 'tail'):
        n = n[2] if n[0] == 'paren' else n[2][0][2]
    return n


def flag(p):
    return {'true': True, 'false': False, True: True, False: False}.get(p[2]) if p[0] == 'plit' and \
        not (isinstance(p[2], int) and not isinstance(p[2], bool)) else None


def handed_on(m):
    """The operand of `match e { Ok(v) => v, Err(x) => return Err(x) }`: the long form of `e?`."""
    ok = err = False
    for a in m[3]:
        if a[3] is not None:
            return None
        p, b = a[2], bare(a[4])
        if p[0] == 'pts' and len(p[3]) == 1 and p[3][0][0] == 'pident':
            k, v = p[2].replace(' ', '').rsplit('::', 1)[-1], p[3][0][2]
        elif p[0] == 'pident' and p[2] == 'None' or p[0] == 'ppath':
            k, v = p[2].replace(' ', '').rsplit('::', 1)[-1], None
        else:
            return None
        if k in ('Ok', 'Some'):
            ok = b[0] == 'path' and b[2] == v
        elif k in ('Err', 'None'):
            if b[0] == 'block' and len(b[2]) == 1 and b[2][0][0] == 'semi':
                b = b[2][0][2]
            if b[0] != 'return' or not b[2]:
                return None
            r = bare(b[2])
            if k == 'None':
                err = r[0] == 'path' and r[2].endswith('None')
            elif r[0] == 'call' and (path(r[2]) or '').rsplit('::', 1)[-1] == 'Err' and len(r[3]) == 1:
                x = bare(r[3][0])
                if x[0] == 'call' and (path(x[2]) or '').rsplit('::', 1)[-1] == 'from' and len(x[3]) == 1:
                    x = bare(x[3][0])
                elif x[0] == 'mcall' and x[3] == 'into':
                    x = bare(x[2])
                err = x[0] == 'path' and x[2] == v
        else:
            return None
    return m[2] if len(m[3]) == 2 and ok and err else None


ARITH = ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>')
TURN = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def same(a, b):
    return [same(x, y) for x, y in zip(a, b)].count(False) == 0 and len(a) == len(b) if isinstance(a, list) and isinstance(b, list) \
        else a == b or isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool)


def sole(n):
    """A block holding only a choice or a loop is that choice or loop."""
    if isinstance(n, list) and n and n[0] == 'block' and len(n[2]) == 1 and n[2][0][0] == 'tail' and \
            n[2][0][2][0] in ('if', 'match', 'for', 'while', 'loop'):
        return n[2][0][2]
    return n


def idle(st):
    """A statement that does nothing."""
    if st[0] == 'local':
        e = st[3] if st[2][0] == 'pwild' and not st[4] else None
        while e and e[0] == 'ref':
            e = e[3]
    elif st[0] == 'semi':
        e = st[2]
    else:
        return False
    return bool(e) and (e[0] in ('lit', 'path') or e[0] == 'tuple' and not e[2] or e[0] == 'block' and not e[2] or
                        e[0] == 'if' and e[2][0] == 'lit' and str(e[2][2]).lower() == 'false' and not e[4])


def uses(n, name):
    return sum(1 for x in find(n, 'path') if x[2] == name) + sum(1 for x in find(n, 'macro') if name in str(x[3]).split())


def steps(sts):
    sts = [st for st in sts if not idle(st)]
    out = []
    for i, st in enumerate(sts):
        d = out[-1] if out else None
        if d and d[0] == 'local' and d[2][0] == 'pident' and d[3] is not None and not d[4] and st[0] in ('semi', 'tail'):
            e, v = st[2], d[2][2]
            once = uses(sts[i:], v) == 1
            if e[0] == 'if' and once:
                c = bare(e[2])
                neg = c[0] == 'un' and c[2] == '!'
                if neg:
                    c = bare(c[3])
                if c[0] == 'path' and c[2] == v:
                    out[-1] = [st[0], st[1], normal(['if', e[1], ['un', e[1], '!', d[3]] if neg else d[3], e[3], e[4]])]
                    continue
            src = d[3]
            src = src[3][0] if src[0] == 'call' and tail(path(src[2])) == 'into_iter' and len(src[3]) == 1 else \
                src[2] if src[0] == 'mcall' and src[3] == 'into_iter' else None
            if e[0] == 'while' and e[2][0] == 'let' and once and src:
                p, x = e[2][2], e[2][3]
                x = x[3][0] if x[0] == 'call' and tail(path(x[2])) == 'next' and x[3] else x[2] if x[0] == 'mcall' and x[3] == 'next' else None
                while x and x[0] == 'ref':
                    x = x[3]
                if x and x[0] == 'path' and x[2] == v and p[0] == 'pts' and tail(p[2].replace(' ', '')) == 'Some' and len(p[3]) == 1:
                    out[-1] = [st[0], st[1], ['for', e[1], p[3][0], src] + e[3:]]
                    continue
        out.append(st)
    return out


def normal(n):
    """One form for the several ways of writing the same choice: a match on a truth value is an `if`, a negated
    condition with both branches is turned round, and handing an error on by hand is `?`."""
    if not isinstance(n, list):
        return n
    n = [normal(x) if isinstance(x, list) else x for x in n]
    if not n or not isinstance(n[0], str):
        return n
    if len(n) < 3 or not isinstance(n[1], int):
        return n
    if n[0] in ('block', 'unsafe') and isinstance(n[2], list):
        return [n[0], n[1], steps(n[2])] + n[3:]
    if n[0] in ('semi', 'tail', 'local', 'return', 'try', 'arm', 'call', 'mcall', 'assign'):
        n = n[:2] + [sole(x) for x in n[2:]]
        if n[0] in ('call', 'mcall'):
            n[-1] = [sole(x) for x in n[-1]]
    if n[0] == 'assign' and n[3][0] == 'bin' and n[3][2] in ARITH and n[2][0] in ('path', 'field') and same(n[2], bare(n[3][3])):
        return ['bin', n[1], n[3][2] + '=', n[2], n[3][4]]
    if n[0] == 'un' and n[2] == '!':
        c = bare(n[3])
        if c[0] == 'bin' and c[2] in TURN:
            return ['bin', c[1], TURN[c[2]], c[3], c[4]]
    if n[0] == 'match' and len(n) > 3 and len(n[3]) == 2:
        a, b = n[3]
        x, y = flag(a[2]), flag(b[2])
        if x is not None and a[3] is None and b[3] is None and (y is (not x) or b[2][0] == 'pwild'):
            t, e = (a[4], b[4]) if x else (b[4], a[4])
            e = block(e)
            n = ['if', n[1], n[2], block(t), e if e[2] else None]
        else:
            h = handed_on(n)
            if h:
                return ['try', n[1], h]
            if a[3] is None and b[3] is None and b[2][0] == 'pwild' and a[2][0] in ('pts', 'pstruct', 'pident', 'ppath', 'por', 'pref') and \
                    not (a[2][0] == 'pident' and a[2][2][:1].islower()):
                e = block(b[4])
                return ['if', n[1], ['let', n[1], a[2], n[2]], block(a[4]), e if e[2] else None]
    if n[0] == 'if' and len(n) > 4 and n[4] is None and n[3][0] == 'block' and len(n[3][2]) == 1 and n[3][2][0][0] in ('tail', 'semi'):
        i = n[3][2][0][2]
        if i[0] == 'if' and i[4] is None:
            return ['if', n[1], ['bin', n[1], '&&', n[2], i[2]], i[3], None]
    if n[0] == 'if' and len(n) > 4 and n[4] is not None:
        n[3] = block(bare(n[3]))
        if bare(n[4])[0] == 'if':
            n[4] = bare(n[4])
        c = bare(n[2])
        if c[0] == 'un' and c[2] == '!':
            t, e = n[3], n[4]
            if e[0] == 'block' and not e[2]:
                return ['if', n[1], n[2], t, None]
            return ['if', n[1], bare(c[3]), block(e), t]
    return n


def ending(b):
    """A body that ends in `let r = e; return r;` or `return e;` ends in `e`."""
    if not (isinstance(b, list) and b and b[0] in ('block', 'unsafe') and b[2]):
        return b
    st = list(b[2])
    last = st[-1]
    if last[0] in ('semi', 'tail') and last[2][0] == 'return' and last[2][2]:
        last = ['tail', last[1], last[2][2]]
        st[-1] = last
    if last[0] == 'tail' and last[2][0] == 'path' and len(st) > 1:
        d = st[-2]
        if d[0] == 'local' and d[2][0] == 'pident' and d[2][2] == last[2][2] and d[3] is not None and not d[4]:
            st[-2:] = [['tail', d[1], d[3]]]
    return [b[0], b[1], st] + list(b[3:])


def find(n, *kinds):
    """All nodes of the given kinds below n (not inside nested items)."""
    if isinstance(n, list):
        if n and isinstance(n[0], str) and n[0] in kinds and len(n) > 1 and isinstance(n[1], int):
            yield n
        for x in n:
            if isinstance(x, list) and not (x and x[0] == 'item' and 'item' not in kinds):
                yield from find(x, *kinds)


def choices(n):
    """All choices by pattern below n, as match nodes: `if let` is one with two arms."""
    for m in find(n, 'match', 'if'):
        if m[0] == 'match':
            yield m
        elif m[2][0] == 'let':
            yield ['match', m[1], m[2][3], [['arm', m[1], m[2][2], None, m[3]],
                                            ['arm', m[1], ['pwild', m[1]], None, m[4] or ['block', m[1], []]]]]


def calls(n):
    """(kind, line, name-or-path, receiver, args) of every call below n."""
    for x in find(n, 'call', 'mcall'):
        if x[0] == 'mcall':
            yield 'm', x[1], x[3], x[2], x[4]
        else:
            yield 'f', x[1], path(x[2]), None, x[3]


def path(n):
    return n[2].replace(' ', '') if n and n[0] == 'path' else None


def tail(p):
    """Last segment of a path without generics."""
    import re
    while p and '<' in p:
        q = re.sub(r'(::)?<[^<>]*>', '', p)
        if q == p:
            break
        p = q
    return p.rsplit('::', 1)[-1] if p else p


def tree():
    if 'tree' not in _cache:
        os.makedirs(framework.WORK, exist_ok=True)
        fd, out = tempfile.mkstemp(prefix='syn.', suffix='.json', dir=framework.WORK)
        os.close(fd)
        try:
            p = subprocess.run(['bash', os.path.join(framework.VERIF, 'tools', 'syn.sh'), out], stdout=sys.stderr)
            if p.returncode:
                raise RuntimeError('the interpreter sources could not be parsed')
            _cache['tree'] = Tree(json.load(open(out)))
        finally:
            os.unlink(out)
    return _cache['tree']
