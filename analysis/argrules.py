"""C22: a built-in method reads only the argument slots its registration reserves.

Registrations are followed through the forwarding `define_*` functions down to the
function record, so what `min`, `max`, `rest` and the keywords are for one registration
is read from the code and not from the names of the functions.  Reads of argument
slots are collected from the registered function and from every function the frame
is handed on to, with constant indices passed along.
"""
import framework
from syntree import find, calls, path, tail

FRAME = 'Lfp'


def lit(n, env):
    """Integer or boolean value of an expression, list length for `&[..]`; None when unknown."""
    if n is None:
        return None
    if n[0] == 'lit':
        return n[2]
    if n[0] == 'path':
        return env.get(n[2].replace(' ', ''))
    if n[0] == 'ref':
        return lit(n[3], env)
    if n[0] == 'array':
        return len(n[2])
    if n[0] == 'cast':
        return lit(n[2], env)
    if n[0] == 'bin' and n[2] in '+-*':
        a, b = lit(n[3], env), lit(n[4], env)
        if isinstance(a, int) and isinstance(b, int):
            return {'+': a + b, '-': a - b, '*': a * b}[n[2]]
    return None


class Registrations:
    """What each `define_*` call reserves, followed down to the function record."""

    def __init__(self, t):
        self.t = t
        self.consts = {}
        for c in t.consts:
            v = lit(c[4], {}) if c[4] else None
            if v is not None:
                self.consts.setdefault(c[0], {})[c[2]] = v
        self.ends = {f.name for f in t.fns if f.owner == 'FuncInfo' and f.name.startswith('new_native')}
        if not self.ends:
            raise framework.AnchorMissing('FuncInfo::new_native')
        self.store = [f for f in t.fns if f.file.startswith('globals') and
                      any(ty.replace(' ', '') == 'BuiltinFn' for _, ty in f.params)]

    def named(self, name):
        return [f for f in self.store if f.name == name]

    def bind(self, f, args):
        ps = [p for p in f.params if p[0] != 'self']
        return dict(zip([p[0].replace('mut ', '') for p in ps], args)) if len(ps) == len(args) else None

    def reserve(self, name, args, env, depth=0):
        """-> (min, max, rest, kw, kw_rest, address) or None"""
        if depth > 8:
            return None
        for f in self.named(name):
            b = self.bind(f, args)
            if b is None:
                continue
            vals = {k: lit(v, env) for k, v in b.items()}
            addr = [v for (k, v), (_, ty) in zip(b.items(), [p for p in f.params if p[0] != 'self'])
                    if ty.replace(' ', '') == 'BuiltinFn']
            if f.owner == 'FuncInfo' and f.name in self.ends:
                kw = vals.get('kw_names', vals.get('kw', 0))
                return [vals.get('min'), vals.get('max'), vals.get('rest'), kw, vals.get('kw_rest', False)]
            inner = [c for c in calls(f.body) if any(path(a) == 'address' for a in c[4])]
            for _, _, callee, _, a in inner:
                r = self.reserve(tail(callee), a, vals, depth + 1) if callee else None
                if r:
                    return r + addr if depth == 0 else r
        return None

    def all(self):
        """[(file, line, method name, address expression, (min, max, rest, kw, kw_rest))], unresolved count"""
        out, un = [], []
        for f in self.t.fns:
            if f.file.startswith('globals/') and f in self.store:
                continue
            local = dict(self.consts.get(f.file, {}))
            for x in find(f.body, 'local'):
                if x[2][0] == 'pident' and x[3]:
                    v = lit(x[3], local)
                    if v is not None:
                        local[x[2][2]] = v
            for k, line, name, recv, args in calls(f.body):
                if k != 'm' or not name or not name.startswith('define_') or not self.named(name):
                    continue
                r = self.reserve(name, args, local)
                if r is None or len(r) < 6 or any(v is None for v in r[:5]):
                    un.append((f.file, line, name))
                else:
                    label = next((a[3] for a in args if a[0] == 'lit' and len(a) > 3), '?')
                    out.append((f.file, line, label, r[5], tuple(r[:5])))
        return out, un


class Reads:
    """Argument slots read by a function holding the frame, and by those it hands the frame to."""

    def __init__(self, t):
        self.t, self.memo = t, {}

    def resolve(self, p, file):
        """The free function a path names, seen from `file`."""
        name = tail(p)
        c = [f for f in self.t.by_name.get(name, ()) if f.owner is None and not (f.mod and f.mod[-1] == 'tests')]
        segs = [s for s in p.split('::')[:-1] if s not in ('crate', 'self', 'builtins')]
        if segs and segs[-1] == 'super':
            segs = []
        if segs:
            m = [f for f in c if f.file.endswith('/' + segs[-1] + '.rs') or f.file == segs[-1] + '.rs' or
                 f.file.endswith('/' + segs[-1] + '/mod.rs') or segs[-1] in f.mod]
            return m[0] if len(m) == 1 else None
        here = [f for f in c if f.file == file]
        if here:
            return here[0] if len(here) == 1 else None
        return c[0] if len(c) == 1 else None

    def of(self, f, consts=()):
        """[(slot or None, 'arg'|'try_arg', line, file, guards)]"""
        key = (f.file, f.line, consts)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        frames = {p for p, ty in f.params if ty.replace(' ', '').replace('mut', '') in (FRAME, '&' + FRAME)}
        env = dict(consts)
        self.memo[key] = self.scan(f, f.body, frames, env)
        return self.memo[key]

    def scan(self, f, body, frames, env):
        out = []
        frames = {x.replace('mut ', '') for x in frames}
        env = dict(env)
        self.visit(f, body, frames, env, (), out)
        return out

    def visit(self, f, n, frames, env, guards, out):
        if not isinstance(n, list) or not n:
            return
        k = n[0]
        if not isinstance(k, str) or len(n) < 2 or not isinstance(n[1], int):
            g = guards
            for x in n:
                self.visit(f, x, frames, env, g, out)
                if isinstance(x, list) and x and x[0] in ('semi', 'tail', 'local') and leaves(x):
                    g = g + asked(x)
            return
        if k == 'local':
            self.visit(f, n[3], frames, env, guards, out)
            self.visit(f, n[4], frames, env, guards, out)
            if n[2][0] == 'pident':
                v = lit(n[3], env)
                if v is not None:
                    env[n[2][2]] = v
                else:
                    env.pop(n[2][2], None)
            return
        if k == 'if':
            self.visit(f, n[2], frames, env, guards, out)
            g = guards + asked(n[2])
            self.visit(f, n[3], frames, dict(env), g, out)
            self.visit(f, n[4], frames, dict(env), g, out)
            return
        if k == 'match':
            self.visit(f, n[2], frames, env, guards, out)
            g = guards + asked(n[2])
            for a in n[3]:
                self.visit(f, a[3], frames, env, g, out)
                self.visit(f, a[4], frames, dict(env), g, out)
            return
        if k == 'bin' and n[2] in ('&&', '||'):
            self.visit(f, n[3], frames, env, guards, out)
            self.visit(f, n[4], frames, env, guards + asked(n[3]), out)
            return
        if k == 'for':
            r = n[3]
            self.visit(f, r, frames, env, guards, out)
            e = dict(env)
            if n[2][0] == 'pident':
                hi = lit(r[3], env) if r[0] == 'range' else None
                e[n[2][2]] = hi - (0 if r[4] else 1) if isinstance(hi, int) else None
            self.visit(f, n[4], frames, e, guards + asked(r) + (('loop',),), out)
            return
        if k == 'mcall' and path(n[2]) in frames and n[3] in ('arg', 'try_arg') and len(n[4]) == 1:
            v = lit(n[4][0], env)
            out.append((v if isinstance(v, int) and not isinstance(v, bool) else None, n[3], n[1], f.file, guards))
            self.visit(f, n[4], frames, env, guards, out)
            return
        if k == 'call':
            p = path(n[2])
            if p and any(path(a) in frames for a in n[3]):
                g = self.resolve(p, f.file)
                if g is not None and len(g.params) == len(n[3]):
                    cs = []
                    for (pn, ty), a in zip(g.params, n[3]):
                        v = lit(a, env)
                        if isinstance(v, int) and not isinstance(v, bool) and ty.strip() in ('usize', 'u16', 'i64', 'u32'):
                            cs.append((pn.replace('mut ', ''), v))
                    for r in self.of(g, tuple(cs)):
                        out.append(r[:4] + (guards + r[4],))
                elif g is None:
                    out.append((None, 'unresolved ' + p, n[1], f.file, guards))
        if k == 'macro':
            if n[4]:
                for x in n[4]:
                    self.visit(f, x, frames, env, guards, out)
            return
        for x in n[2:]:
            self.visit(f, x, frames, env, guards, out)


def leaves(n):
    """Does this statement leave the function on some path?"""
    return any(True for _ in find(n, 'return')) or any(True for _ in find(n, 'try'))


def asked(n):
    """Questions about the presence of arguments asked in this expression."""
    out = []
    for x in find(n, 'mcall'):
        if x[3] in ('try_arg', 'args_count', 'arg_len'):
            v = lit(x[4][0], {}) if x[4] else None
            out.append((x[3], v))
    for x in find(n, 'path'):
        out.append(('name', x[2]))
    return tuple(out)


def run(t):
    R = Registrations(t)
    regs, un = R.all()
    reads = Reads(t)
    bad, seen, slots, opaque = [], 0, 0, 0
    unaddressed = []
    for file, line, label, addr, (lo, hi, rest, kw, kwrest) in regs:
        p = path(addr)
        f = reads.resolve(p, file) if p else None
        if f is None:
            unaddressed.append((file, line, label))
            continue
        seen += 1
        n = hi + int(bool(rest)) + kw + int(bool(kwrest))
        for v, how, ln, fl, guards in reads.of(f):
            if v is None:
                opaque += 1
                continue
            slots += 1
            if v >= n:
                bad.append((fl, ln, label, f, 'slot %d is read but the registration (line %d of %s) reserves %d'
                            % (v, line, file, n), 'beyond', v))
            elif how == 'arg' and lo <= v < hi and not guards:
                bad.append((fl, ln, label, f, 'optional argument %d is taken as always present' % v, 'optional', v))
    return dict(regs=regs, unresolved=un, unaddressed=unaddressed, functions=seen, reads=slots, opaque=opaque, bad=bad)


if __name__ == '__main__':
    import syntree
    r = run(syntree.tree())
    print({k: (v if isinstance(v, int) else len(v)) for k, v in r.items()})
    print(r['unresolved'][:10], r['unaddressed'][:10])
    for b in r['bad'][:60]:
        print(b[:3], b[3].name, b[4])
