"""C17, C18: what the attribute macros generate, for every declaration in the repository.

The probe crate declares every built-in method and object type of the repository with
stub bodies; the macros are applied by the compiler and the MIR of the expansion is
interpreted.  Stubs are opaque calls recorded in order.
"""
import json
import os
from terms import *
from absint import Undecided, Interp, State, strip_generics
import models

LFP, PC = ('lfp',), ('pc',)
VM, GLOBALS = ('ref', ('O', 'vm'), ()), ('ref', ('O', 'globals'), ())
OKV, ERRV = ('okval',), ('errval',)


class Out:
    def __init__(self):
        self.viol, self.undecided = [], []
        self.exits, self.done, self.calls = 0, {}, 0

    def bad(self, rule, fn, what, where):
        k = (rule, fn, what, where)
        if k not in self.viol:
            self.viol.append(k)


def plain(st, I, v):
    """Argument without references."""
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'ref' and n < 6 and v[1][0] in ('L', 'T'):
        v, n = I.load(st, v), n + 1
    return v


class Probe(Interp):
    def __init__(self, prog, wrapped=None):
        Interp.__init__(self, prog, models.M, lambda f: True, 4000)
        self.wrapped = wrapped

    def is_stub(self, f):
        b = f['blocks'][0]
        return b['t'][0] == 'call' and b['t'][4] is None and 'unimplemented' in str(b['t'][1])

    def call_callee(self, st, c, cal, args):
        f = self.prog.fns.get(cal.get('rfn') or cal['fn'])
        if f is None:
            return Interp.call_callee(self, st, c, cal, args)
        if not self.is_stub(f):
            return self.call_fn(st, f, args, c.fr.depth + 1)
        name = strip_generics(f['path'])
        a = tuple(plain(st, self, x) for x in args)
        s = st.copy()
        s.trace.append(('call', name, a, tuple(args), tuple(f['crate'].ty(f['locals'][i + 1][0])['s']
                                                            for i in range(f['argc']))))
        if f['fn'] == self.wrapped:
            s2 = s.copy()
            s.trace.append(('inner', 'ok'))
            s2.trace.append(('inner', 'err'))
            return [(s, ok(OKV)), (s2, err(ERRV))]
        if name.endswith('PartialEq>::eq') and 'Lfp' in name:
            a = tuple(self.load(st, x) if isinstance(x, tuple) and x and x[0] == 'ref' else x for x in a)
            s.trace[-1] = s.trace[-1][:2] + (a,) + s.trace[-1][3:]
            return [(s, eq(a[0], a[1]))]
        rt = f['crate'].ty(f['locals'][0][0])
        v = ('ret', name) + a
        if rt['k'] == 'ref':
            s.mem.setdefault(('O', v), ('at', v))
            return [(s, ('ref', ('O', v), ()))]
        if rt['s'] == '()':
            return [(s, UNIT)]
        if rt['s'] == '!':
            return []
        return [(s, v)]


    def switch(self, st, fr, t):
        """Also remember which variants the remaining edge excludes."""
        out = Interp.switch(self, st, fr, t)
        v = self.operand(st, fr, t[1])
        if isinstance(v, tuple) and v[0] == 'discr':
            res = []
            for s, b in out:
                k = s.variants.get(v[1])
                if k is not None:
                    if s.ord.feasible([eq(v, k)]) is False:
                        continue
                elif b == t[3]:
                    for val, _ in t[2]:
                        s = s.assume(neg(eq(v, val))) or s
                res.append((s, b))
            return res
        return out


def calls(s):
    return [t for t in s.trace if t[0] == 'call']


def payload(v):
    if is_agg(v, 'std::option::Option'):
        return ('none',) if v[2] == 0 else ('some', v[4][0][1])
    return None


def c17(prog, declared):
    O = Out()
    fns = {strip_generics(f['path']): f for f in prog.fns.values()}
    kinds = next((c.adts['MonorubyErrKind'] for c in prog.crates.values() if 'MonorubyErrKind' in c.adts), None)
    method_return = [v[0] for v in kinds['variants']].index('MethodReturn') if kinds else None
    for name in declared['builtins']:
        mod, n = name.split('::')
        f = fns.get(name)
        g = fns.get('%s::__%s' % (mod, n[2:] if n.startswith('r#') else n))
        where = 'monoruby_attr/src/lib.rs built-in %s' % name[2:]
        if f is None or f['argc'] != 4:
            O.bad('missing', name, 'no calling wrapper is generated', where)
            continue
        if g is None:
            # body called under another name: any stub that the wrapper calls with all four arguments
            g = next((x for x in prog.fns.values() if x['fn'].startswith(f['fn'].rsplit('::', 1)[0] + '::')
                      and x['argc'] == 4 and x is not f and n in x['fn']), None)
        try:
            wrapper(prog, f, g, O, where, name, method_return)
        except Undecided as e:
            O.undecided.append((name, str(e)))
    return O


def wrapper(prog, f, g, O, where, name, method_return):
    I = Probe(prog, g['fn'] if g else None)
    st = State()
    st.mem[('O', 'vm')] = ('obj', 'vm')
    st.mem[('O', 'globals')] = ('obj', 'globals')
    n = 0
    for s, v in I.call_fn(st, f, [VM, GLOBALS, LFP, PC], 0):
        if s.ord.feasible() is False:
            continue
        O.exits += 1
        n += 1
        cs = calls(s)
        O.calls += len(cs)
        inner = [i for i, t in enumerate(s.trace) if t[0] == 'inner']
        runs = [t for t in cs if g and t[1] == strip_generics(g['path'])]
        if len(inner) != 1 or len(runs) != 1:
            O.bad('runs', name, 'the method body is not run exactly once', where)
            continue
        if tuple(runs[0][3]) != (VM, GLOBALS, LFP, PC):
            O.bad('args', name, 'the method body does not get the caller\'s arguments', where)
        writes = [t for t in cs if t is not runs[0] and any(x.startswith('&mut ') for x in t[4]) or t[1].endswith('set_error')]
        p = payload(v)
        if p is None:
            O.undecided.append((name, 'unknown answer'))
            continue
        if s.trace[inner[0]][1] == 'ok':
            if p != ('some', OKV):
                O.bad('value', name, 'success does not return the method\'s value', where)
            if writes:
                O.bad('value', name, 'success changes the interpreter state', where)
            continue
        at = ('at', ('ret', 'MonorubyErr::kind', ERRV))
        own = returns_here(I, s, at, method_return)
        if p[0] == 'some':
            if own is not True:
                O.bad('swallowed', name, 'an error yields a value although it is not a return aimed at this frame', where)
            elif field_of(p[1], at) != '0':
                O.bad('value', name, 'a return aimed at this frame does not yield its value', where)
            if writes:
                O.bad('value', name, 'a return aimed at this frame leaves a pending error', where)
            continue
        if own is not False:
            O.bad('return', name, 'a return aimed at this frame can be treated as an error', where)
        tr = [t for t in writes if t[1].endswith('push_builtin_trace')]
        se = [t for t in writes if t[1].endswith('set_error')]
        if len(se) != 1 or se[0][2][1] != ERRV or se[0][3][0] != VM:
            O.bad('pending', name, 'the error does not become the pending error', where)
        elif len(tr) != 1 or tr[0][2][2] != ERRV or tr[0][2][3] != ('ret', 'Lfp::func_id', LFP) \
                or cs.index(tr[0]) > cs.index(se[0]):
            O.bad('trace', name, 'the error does not get this frame\'s trace entry before it becomes pending', where)
        elif len(writes) != 2:
            O.bad('pending', name, 'something else happens to the interpreter state: %s' %
                  ', '.join(t[1] for t in writes if t not in (tr[0], se[0])), where)
    if not n:
        O.bad('runs', name, 'the wrapper never returns', where)
    for ps, what, pf, line in I.panics:
        if ps.ord.feasible() is not False:
            O.bad('panics', name, 'the wrapper can panic', where)
    O.done[name] = n


def returns_here(I, s, at, mr):
    """True/False if the path settles whether the error is a return aimed at LFP."""
    k = s.variants.get(at)
    is_mr = True if k == mr else (False if k is not None else None)
    if is_mr is None and excluded(I, s, at, mr):
        is_mr = False
    if is_mr is False:
        return False
    same = None
    for t in all_terms(s, at):
        for a, b in ((LFP, t), (t, LFP)):
            if s.ord.feasible([neg(eq(a, b))]) is False:
                same = True
            elif s.ord.feasible([eq(a, b)]) is False:
                same = False
    if same is False:
        return False
    return True if is_mr and same else None


def all_terms(s, at):
    """Terms for the second payload field of the error kind seen on this path."""
    out = []
    for t in s.trace:
        if t[0] == 'call' and t[1].endswith('PartialEq>::eq'):
            out += [x for x in t[2] if field_of(x, at) == '1']
    return out


def field_of(x, at):
    if isinstance(x, tuple) and x and x[0] == 'fld' and mentions(x, at):
        return str(x[-1]).rsplit('.', 1)[-1]
    return None


def mentions(x, at):
    return x == at or isinstance(x, tuple) and any(mentions(y, at) for y in x)


def excluded(I, s, at, mr):
    d = ('discr', at)
    return s.ord.feasible([eq(d, mr)]) is False


def c18(prog, declared):
    O = Out()
    byself = {}
    for f in prog.fns.values():
        if f['argc']:
            byself.setdefault(f['path'], f)
    for name, barrier, rel in declared['objects']:
        low = name.lower()
        where = 'monoruby_attr/src/lib.rs object type %s' % name
        me = ('ref', ('O', 'self'), ())
        val = ('fld', ('wrapped',), '0')
        want = {
            '<%s as std::ops::Deref>::deref' % name: 'deref',
            '<%s as std::ops::DerefMut>::deref_mut' % name: 'deref_mut',
            '<%s as std::convert::Into<Value>>::into' % name: 'into',
            '<%s as alloc::GC<RValue>>::mark' % name: 'mark',
            '%s::new_unchecked' % name: 'new', '%s::as_ptr' % name: 'ptr', '%s::as_val' % name: 'val',
        }
        for path, f in byself.items():
            kind = want.pop(path, None)
            touches = 'as_%s_inner_mut' % low in str([b['t'] for b in f['blocks']])
            if kind is None and not touches:
                continue
            try:
                accessor(prog, f, kind or 'deref_mut', name, low, barrier, O, where)
            except Undecided as e:
                O.undecided.append((path, str(e)))
        for path, kind in want.items():
            if kind == 'into' and '<Value as std::convert::From<%s>>::from' % name in byself:
                continue
            O.bad('missing', path, 'not generated', where)
    return O


def accessor(prog, f, kind, name, low, barrier, O, where):
    I = Probe(prog)
    st = State()
    st.mem[('O', 'self')] = ('wrapped',)
    inner = ('fld', ('wrapped',), '0')
    t = f['crate'].ty(f['locals'][1][0])
    args = [('ref', ('O', 'self'), ()) if t['k'] == 'ref' else ('wrapped',)]
    if kind == 'new':
        args = [('given',)]
    for i in range(1, f['argc']):
        r = ('O', 'arg%d' % i)
        st.mem[r] = ('obj', 'arg%d' % i)
        args.append(('ref', r, ()))
    n = 0
    for s, v in I.call_fn(st, f, args, 0):
        if s.ord.feasible() is False:
            continue
        n += 1
        O.exits += 1
        cs = calls(s)
        O.calls += len(cs)
        heads = [(t[1], own(I, s, t[3][0]) if t[3] else False) for t in cs]
        path = f['path']
        if kind in ('deref', 'deref_mut'):
            acc = 'Value::as_%s_inner%s' % (low, '_mut' if kind == 'deref_mut' else '')
            if (acc, True) not in heads:
                O.bad('self', path, 'does not lend the wrapped object\'s own contents', where)
                continue
            i = heads.index((acc, True))
            if barrier and kind == 'deref_mut' and not any(h == ('Value::write_barrier_bulk', True) for h in heads[:i]):
                O.bad('barrier', path, 'lends mutable contents without running the barrier on the object first', where)
            r = v
            if not (isinstance(r, tuple) and r and r[0] == 'ref' and r[1][0] == 'O' and r[1][1][:2] == ('ret', acc)):
                O.bad('self', path, 'lends something else than the wrapped object\'s contents', where)
        elif kind == 'mark':
            ms = [t for t in cs if t[1] == 'Value::mark']
            if len(ms) != 1 or not own(I, s, ms[0][3][0]) or ms[0][3][1] != args[1]:
                O.bad('mark', path, 'does not mark the wrapped object once', where)
        elif kind in ('into', 'val'):
            if v != inner:
                O.bad('self', path, 'does not return the wrapped object', where)
        elif kind == 'ptr':
            if v not in (('ret', 'Value::id', inner), ('cast', ('ret', 'Value::id', inner))) and \
                    not (mentions(v, ('ret', 'Value::id', inner)) and v[0] in ('cast', 'ptr', 'trunc')):
                O.bad('self', path, 'does not return the wrapped object\'s address', where)
        elif kind == 'new':
            if not (is_agg(v, name) and [x for _, x in v[4]] == [('given',)]):
                O.bad('self', path, 'does not wrap the given object', where)
    if not n:
        O.bad('self', f['path'], 'never returns', where)
    O.done[f['path']] = n


def own(I, s, a):
    if isinstance(a, tuple) and a and a[0] == 'ref':
        return a == ('ref', ('O', 'self'), (('f', '0'),)) or plain0(I, s, a) == ('fld', ('wrapped',), '0')
    return a == ('fld', ('wrapped',), '0')


def plain0(I, s, a):
    try:
        return I.load(s, a)
    except Undecided:
        return None


def load(path):
    return json.load(open(os.path.join(path, 'declared.json')))


if __name__ == '__main__':
    import sys
    from mir import Program
    sys.setrecursionlimit(10000)
    p = Program(sys.argv[1], ['attrprobe'])
    d = load(sys.argv[1])
    for O in (c17(p, d), c18(p, d)):
        for v in O.viol[:8]:
            print(v)
        print('undecided', O.undecided[:5])
        print(len(O.done), O.exits, O.calls)
