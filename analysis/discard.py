"""C28: the result of a call into Ruby code is handed on or looked at, never dropped.

"Into Ruby" is the set of functions that return a `Result` and from which the
entry points that run Ruby code are reachable.  A site drops the error when the
error value is unavailable to whatever follows: `let _`, `.ok()`, `if let Ok`,
an `Err(_)` arm, a closure that ignores the error, and so on.
"""
import framework
from syntree import find, calls, path, tail

ROOTS = ('invoke_func', 'invoke_func_inner', 'invoke_method_inner', 'invoke_block', 'invoke_proc')
BLIND = ('ok', 'is_ok', 'is_err', 'unwrap_or', 'unwrap_or_default', 'err', 'or', 'is_ok_and', 'is_err_and', 'iter')
IGNORING = ('unwrap_or_else', 'or_else', 'map_err', 'map_or_else')
# methods whose call is a diagnostic: its failure must not change the operation it reports on
DIAGNOSTIC = ('warn', 'write', '__warn_deprecated', 'puts')
REPORTERS = ('ruby_warn', 'warn_deprecated')
# deliberate handlers, confirmed one by one: (file, callee, form) -> (how many, why)
DELIBERATE = {
    ('builtins/io.rs', 'get_qualified_constant', 'if let Ok'): (1, 'the child has been waited for; a missing status class must not fail the call'),
    ('builtins/io.rs', 'invoke_method_inner', 'if let Ok'): (1, 'construction of the internal status object after the child ended'),
    ('builtins/kernel.rs', 'get_qualified_constant', 'if let Ok'): (2, 'as in io.rs'),
    ('builtins/kernel.rs', 'invoke_method_inner', 'if let Ok'): (2, 'as in io.rs'),
    ('builtins/kernel.rs', 'invoke_func_inner', 'if let Ok'): (2, 'documented: an exception in to_int surfaces as the TypeError of Rational()'),
    ('builtins/object.rs', 'nme_receiver_description', 'if let Ok'): (1, 'wording of an error that is raised either way'),
    ('codegen/runtime.rs', 'invoke_method_inner', 'match Err(_)'): (1, 'asks whether a warning category is on'),
    ('codegen/runtime.rs', 'invoke_func_inner', 'match Err(_)'): (1, 'defined? never raises'),
    ('executor.rs', 'invoke_method_if_exists', 'let _'): (1, 'best-effort activation of a gem after the file was loaded'),
    ('executor.rs', 'generate_proc_inner', 'if let Ok'): (1, 'runs no Ruby code; the handler is left as it was'),
    ('executor/constants.rs', 'get_constant_superclass_with_class', 'match Err(_)'): (1, 'defined? never raises'),
    ('scheduler.rs', 'pass', '.is_err'): (1, 'the script is over; the error is taken off the executor'),
}


def result(f):
    return f.ret.replace(' ', '').startswith('Result<')


def holds_vm(f):
    return f.owner == 'Executor' or any('Executor' in ty for _, ty in f.params)


class Graph:
    def __init__(self, t):
        self.t = t
        roots = [f for f in t.fns if f.owner == 'Executor' and f.name in ROOTS]
        if len({f.name for f in roots}) < 4:
            raise framework.AnchorMissing('entry points that run Ruby code')
        vm = [f for f in t.fns if holds_vm(f) and f.body]
        self.by = {}
        for f in vm:
            self.by.setdefault(f.name, []).append(f)
        self.callers = {}
        for f in vm:
            for n in find(f.body, 'call', 'mcall'):
                for g in self.targets(n, f):
                    self.callers.setdefault(id(g), []).append(f)
        self.reach, todo = set(), list(roots)
        for f in roots:
            self.reach.add(id(f))
        while todo:
            g = todo.pop()
            for f in self.callers.get(id(g), ()):
                if id(f) not in self.reach:
                    self.reach.add(id(f))
                    todo.append(f)

    def targets(self, n, here=None):
        """Functions holding the executor that a call may mean, seen from function `here`."""
        own = here.owner if here else None
        if n[0] == 'mcall':
            name, args, r = n[3], n[4], path(n[2])
            c = [f for f in self.by.get(name, ()) if f.owner]
            if r in ('vm', 'executor'):
                c = [f for f in c if f.owner == 'Executor']
            elif r == 'self' and own:
                c = [f for f in c if f.owner == own]
            elif not any(vmish(a, own) for a in args):
                return []
            else:
                c = [f for f in c if f.owner != 'Executor']
            return [f for f in c if len([p for p in f.params if p[0] != 'self']) == len(args)]
        p = path(n[2])
        if not p or not any(vmish(a, own) for a in n[3]):
            return []
        return [f for f in self.by.get(tail(p), ()) if len(f.params) == len(n[3])]

    def into(self, n, here):
        """The function of a call that runs Ruby code and returns a Result, or None."""
        if n[0] not in ('call', 'mcall'):
            return None
        for f in self.targets(n, here):
            if id(f) in self.reach and result(f):
                return f
        return None


def vmish(a, own):
    if a[0] == 'ref':
        a = a[3]
    if a[0] == 'unary':
        a = a[-1]
    return path(a) in ('vm', 'executor') or own == 'Executor' and path(a) == 'self'


def uses(n, name):
    return any(path(x) == name for x in find(n, 'path')) or \
        any(name in str(x[-1]) for x in find(n, 'macro'))


def wild(p, body):
    """Does this pattern make the error unavailable to the arm?"""
    if p[0] == 'pwild':
        return True
    if p[0] == 'pident':
        return p[2].startswith('_') or not uses(body, p[2])
    return False


def diagnostic(n):
    name = n[3] if n[0] == 'mcall' else tail(path(n[2]))
    if name in REPORTERS:
        return True
    # a lookup by a symbol key runs no Ruby code
    if any(tail(p) == 'symbol_from_str' for _, _, p, _, _ in calls(n) if p):
        return True
    for x in find(n, 'lit'):
        if len(x) > 3 and x[3] in DIAGNOSTIC or x[2] in DIAGNOSTIC:
            return True
    return False


def sites(t):
    """-> (functions into Ruby, call sites of them, [(fn, line, callee, form, diagnostic?)])"""
    G = Graph(t)
    out, total = [], 0
    for f in t.fns:
        if f.body is None:
            continue
        held = {}
        for x in find(f.body, 'local'):
            if x[2][0] == 'pident' and x[3] and G.into(x[3], f) and not seen_elsewhere(f.body, x[2][2]):
                held[x[2][2]] = x[3]
        consts = {}
        for x in find(f.body, 'local'):
            if x[2][0] == 'pident' and x[3]:
                consts[x[2][2]] = x[3]

        def src(n):
            if G.into(n, f):
                return n
            p = path(n)
            return held.get(p) if p else None

        def note(form, n, call):
            name = call[3] if call[0] == 'mcall' else tail(path(call[2]))
            d = diagnostic(call) or any(diagnostic(consts[path(a)]) for a in (call[4] if call[0] == 'mcall' else call[3])
                                        if path(a) in consts)
            out.append((f, n[1], name, form, d))
        for n in find(f.body, 'call', 'mcall', 'local', 'semi', 'let', 'match'):
            if G.into(n, f):
                total += 1
            k = n[0]
            if k == 'local' and n[3]:
                c = src(n[3])
                if c and (n[2][0] == 'pwild' or n[2][0] == 'pident' and n[2][2].startswith('_')):
                    note('let _', n, c)
                elif c and n[2][0] == 'pts' and tail(n[2][2].replace(' ', '')) == 'Ok':
                    note('let Ok else', n, c)
            elif k == 'semi' and G.into(n[2], f):
                note('unused', n, n[2])
            elif k == 'mcall' and src(n[2]):
                if n[3] in BLIND:
                    note('.' + n[3], n, src(n[2]))
                elif n[3] in IGNORING and n[4] and n[4][0][0] == 'closure' and ignoring(n[4][0]):
                    note('.%s(|_|)' % n[3], n, src(n[2]))
            elif k == 'call' and tail(path(n[2]) or '') in ('drop', 'forget') and n[3] and src(n[3][0]):
                note('drop', n, src(n[3][0]))
            elif k == 'let' and src(n[3]) and n[2][0] == 'pts' and tail(n[2][2].replace(' ', '')) == 'Ok':
                note('if let Ok', n, src(n[3]))
            elif k == 'match' and src(n[2]):
                for a in n[3]:
                    p = a[2]
                    if p[0] == 'pwild':
                        note('match _', n, src(n[2]))
                    elif p[0] == 'pts' and tail(p[2].replace(' ', '')) == 'Err' and wild(p[3][0], [a[3], a[4]]):
                        note('match Err(_)', n, src(n[2]))
    return G, total, out


def seen_elsewhere(body, name):
    """Is the result kept in `name` used other than by looking at its success?"""
    total = sum(path(x) == name for x in find(body, 'path'))
    blind = sum(path(x[2]) == name and x[3] in BLIND for x in find(body, 'mcall')) + \
        sum(path(x[3]) == name and x[2][0] == 'pts' and tail(x[2][2].replace(' ', '')) == 'Ok' for x in find(body, 'let')) + \
        sum(path(x[3]) == name and x[2][0] == 'pwild' for x in find(body, 'local') if x[3])
    return total > blind


def ignoring(c):
    ps = c[2]
    return bool(ps) and wild(ps[0], c[3:])


if __name__ == '__main__':
    import syntree
    G, total, out = sites(syntree.tree())
    print(len(G.reach), total, len(out))
    for f, ln, name, form, d in out:
        print(('D ' if d else '  ') + '%s:%d %s %s %s' % (f.file, ln, f.name, name, form))
