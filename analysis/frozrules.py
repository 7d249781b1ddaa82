"""C23: a built-in that changes its receiver tests for frozenness before the first change.

Forward must-analysis over each built-in: `checked` holds once the frozen test of the receiver has passed on every
path.  A change of the receiver through an unchecked handle while it does not hold is a violation.  Functions the
frame, the receiver or a handle is passed to are analysed with the argument as the receiver.
"""
import glob
import os
import re

import framework
from syntree import choices, find, tail

CHECKS = {'ensure_not_frozen', 'ensure_string_mutable', 'as_array_mut', 'as_hash_mut', 'as_string_mut'}
HANDLES = {'as_array', 'as_hash', 'try_array_ty', 'try_hash_ty'}
CHECKED_HANDLES = {'as_array_mut', 'as_hash_mut', 'as_string_mut'}
# handles and records whose borrow is a change
RAW = {'as_rstring_inner_mut', 'as_range_mut', 'as_time_mut', 'replace_string', 'replace_with_inner', 'replace_str',
       'set_struct_slot', 'as_regexp_inner_mut'}
STD = {'push', 'insert', 'truncate', 'clear', 'drain', 'retain', 'sort', 'sort_by', 'sort_unstable', 'sort_by_key', 'reverse',
       'rotate_left', 'rotate_right', 'extend', 'extend_from_slice', 'swap', 'fill', 'remove', 'pop', 'append', 'resize', 'dedup',
       'split_off', 'swap_remove', 'copy_within', 'retain_mut', 'set_index', 'set_index2', 'replace', 'uniq'}
# methods of the executor and of the globals that change the class they are given
MODULE = {'alias_method_for_class', 'undef_method_for_class', 'remove_method', 'set_constant', 'set_class_variable', 'remove_constant',
          'remove_class_variable', 'add_method', 'add_public_method', 'add_singleton_method', 'define_attr_reader', 'define_attr_writer',
          'change_method_visibility_for_class', 'set_constant_autoload'}
# flags that are no content of the receiver
NOT_CONTENT = {'set_ruby2_keywords_flag', 'unset_ruby2_keywords_flag', 'drop', 'deref_mut', 'write_barrier', 'write_barrier_bulk',
               'as_mut', 'uniquify', 'detach', 'nul_terminated_buf_ptr', 'owned_mut'}
OWNERS = ('Array', 'ArrayInner', 'Hashmap', 'HashmapInner', 'RStringInner', 'RString', 'TimeInner')


def mutators(t):
    m = set(STD)
    for f in t.fns:
        if f.owner and f.owner.split('<')[0] in OWNERS and f.params and 'mut self' in ' '.join(map(str, f.params[0])):
            m.add(f.name)
    return m - NOT_CONTENT


def name_of(p):
    return re.sub(r'^(&|mut\b|\s)+', '', p[0]).strip()


class An:
    def __init__(self, t):
        self.t, self.mut, self.memo = t, mutators(t), {}
        self.sites = 0

    def resolve(self, f, p):
        n = tail(p)
        c = [x for x in self.t.by_name.get(n, ()) if x.body and x.file.startswith('builtins')]
        same = [x for x in c if x.file == f.file and (x.owner is None or '::' in p)]
        if same:
            return same[0]
        c = [x for x in c if x.owner is None]
        return c[0] if len(c) == 1 else None

    def run(self, f, kind, name, checked=False):
        """-> (checked at every normal end, [(line, what, file)])"""
        key = (f.file, f.line, f.name, kind, name, checked)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (True, [])
        w = Walk(self, f, {name: kind})
        end = w.block_value(f.body, checked)
        # a normal end: falling off, or `return Ok`
        out = (all(x is True for x in w.ends + ([end] if end is not None else [])), w.writes)
        self.memo[key] = out
        return out


class Walk:
    """state: True when checked, False when not, None when the point is not reached; ('some', x): checked if the
    optional x is present"""

    def __init__(self, an, f, env):
        self.an, self.f, self.env, self.writes, self.ends = an, f, dict(env), [], []

    # ---- what an expression denotes: 'lfp', 'recv', 'handle', 'safe' or None
    def kind(self, e):
        if not isinstance(e, list) or not e:
            return None
        k = e[0]
        if k == 'path':
            return self.env.get(e[2].replace(' ', ''))
        if k in ('paren', 'group', 'try', 'cast'):
            return self.kind(e[2])
        if k == 'ref':
            return self.kind(e[3])
        if k == 'un' and e[2] == '*':
            return self.kind(e[3])
        if k in ('block', 'unsafe') and e[2] and e[2][-1][0] == 'tail':
            return self.kind(e[2][-1][2])
        if k == 'mcall':
            b = self.kind(e[2])
            if b == 'lfp' and e[3] == 'self_val':
                return 'recv'
            if b == 'recv':
                if e[3] in HANDLES:
                    return 'handle'
                if e[3] in CHECKED_HANDLES:
                    return 'handle'
                if e[3] in RAW:
                    return 'raw'
                if e[3] in ('as_class', 'as_class_id', 'expect_class', 'is_class_or_module'):
                    return 'module'
            if b == 'module' and e[3] in ('id', 'unwrap'):
                return b
            if b == 'handle' and e[3] in ('unwrap', 'expect', 'clone', 'as_val'):
                return 'recv' if e[3] == 'as_val' else b
        if k == 'call' and e[2][0] == 'path':
            p = e[2][2].replace(' ', '')
            if p in ('Array::new', 'Array::new_unchecked', 'Hashmap::new', 'RString::new_unchecked') and e[3] and self.kind(e[3][0]) == 'recv':
                return 'handle'
        return None

    def write(self, line, what, st):
        self.an.sites += 1
        if st is not None and st is not True:
            self.writes.append((line, what, self.f.file))

    def bind(self, pat, e):
        k = self.kind(e)
        names = [p[2] for p in find(pat, 'pident')]
        if pat[0] == 'pident' or (pat[0] in ('pts', 'ptype') and len(names) == 1):
            self.env[names[0]] = k
        else:
            for n in names:
                self.env.pop(n, None)

    # ---- effects in evaluation order
    def block_value(self, e, st):
        return self.go(e, st)

    def seq(self, es, st):
        for e in es:
            if st is None:
                return None
            st = self.go(e, st)
        return st

    def merge(self, ss):
        ss = [s for s in ss if s is not None]
        if not ss or all(s is True for s in ss):
            return True if ss else None
        part = {s for s in ss if s is not True}
        return part.pop() if len(part) == 1 else False

    def go(self, e, st):
        if st is None or not isinstance(e, list) or not e:
            return st
        k = e[0]
        if not isinstance(k, str):
            return self.seq(e, st)
        if k in ('block', 'unsafe'):
            saved = dict(self.env)
            st = self.seq(e[2], st)
            self.env = saved
            return st
        if k in ('semi', 'tail'):
            return self.go(e[2], st)
        if k == 'local':
            if e[3]:
                st = self.go(e[3], st)
                if e[4]:
                    self.go(e[4], st)
                self.bind(e[2], e[3])
            return st
        if k == 'if':
            st = self.cond(e[2], st)
            saved = dict(self.env)
            neg = self.frozen_test(e[2])
            x = self.present(e[2])
            a = self.go(e[3], True if x and st == ('some', x) else st)
            self.env = dict(saved)
            b = self.go(e[4], True if neg and st is not None else st) if e[4] else (True if neg and st is not None else st)
            self.env = saved
            if x and a is True and b is False:
                return ('some', x)
            return self.merge([a, b])
        if k == 'match':
            st = self.go(e[2], st)
            if st is None:
                return None
            outs = []
            saved = dict(self.env)
            for arm in e[3]:
                self.env = dict(saved)
                self.bind(arm[2], e[2]) if arm[2][0] in ('pident', 'pts') else None
                s = self.go(arm[3], st) if arm[3] else st
                outs.append(self.go(arm[4], s))
            self.env = saved
            return self.merge(outs)
        if k in ('for', 'while', 'loop'):
            saved = dict(self.env)
            for x in e[2:-1]:
                if isinstance(x, list) and x and x[0] not in ('pident', 'pts', 'ptuple', 'pwild', 'pstruct'):
                    st = self.go(x, st)
            x = self.over(e)
            self.go(e[-1], True if x and st == ('some', x) else st)
            self.env = saved
            return st
        if k == 'closure':
            saved = dict(self.env)
            ends, self.ends = self.ends, []
            self.go(e[-1], st)
            self.ends = ends
            self.env = saved
            return st
        if k == 'return':
            if e[2]:
                st = self.go(e[2], st)
            if st is not None and not self.is_err(e[2]):
                self.ends.append(st)
            return None
        if k in ('break', 'continue'):
            for x in e[2:]:
                st = self.go(x, st)
            return None
        if k == 'macro':
            if e[2] in ('unreachable', 'panic', 'unimplemented', 'todo'):
                return None
            return self.seq(e[4], st) if len(e) > 4 and isinstance(e[4], list) else st
        if k == 'assign' or k == 'bin' and e[2].endswith('=') and e[2] not in ('==', '<=', '>=', '!='):
            lhs, rhs = (e[2], e[3]) if k == 'assign' else (e[3], e[4])
            st = self.go(rhs, st)
            st = self.go(lhs, st)
            if st is None:
                return None
            t = lhs
            if t[0] == 'index' and self.kind(t[2]) in ('handle', 'raw'):
                self.write(e[1], 'element assigned', st)
            elif t[0] == 'un' and t[2] == '*' and self.kind(t[3]) in ('raw', 'handle'):
                self.write(e[1], 'content replaced', st)
            elif t[0] == 'path' and k == 'assign':
                self.env[t[2].replace(' ', '')] = self.kind(rhs)
            return st
        if k == 'mcall':
            return self.mcall(e, st)
        if k == 'call':
            return self.call(e, st)
        if k == 'let':
            st = self.go(e[3], st)
            self.bind(e[2], e[3])
            return st
        if k == 'item':
            return st
        if k == 'bin' and e[2] in ('&&', '||'):
            st = self.go(e[3], st)
            self.go(e[4], st)
            return st
        for x in e[2:]:
            if isinstance(x, list):
                st = self.go(x, st)
        return st

    def cond(self, c, st):
        return self.go(c, st)

    def frozen_test(self, c):
        """`if recv.is_frozen() { .. }`: the other branch is checked."""
        while isinstance(c, list) and c[0] == 'paren':
            c = c[2]
        return isinstance(c, list) and c[0] == 'mcall' and c[3] == 'is_frozen' and self.kind(c[2]) in ('recv', 'handle')

    def present(self, c):
        """The variable an `if x.is_some()` or `if let Some(_) = x` asks for."""
        while isinstance(c, list) and c[0] == 'paren':
            c = c[2]
        if isinstance(c, list) and c[0] == 'mcall' and c[3] == 'is_some' and c[2][0] == 'path':
            return c[2][2].replace(' ', '')
        if isinstance(c, list) and c[0] == 'un' and c[2] == '!' and c[3][0] == 'mcall' and c[3][3] == 'is_empty' and c[3][2][0] == 'path':
            return c[3][2][2].replace(' ', '')
        if isinstance(c, list) and c[0] == 'let' and c[2][0] == 'pts' and tail(c[2][2].replace(' ', '')) == 'Some' and c[3][0] == 'path':
            return c[3][2].replace(' ', '')
        return None

    def over(self, e):
        """The list a `for` walks."""
        x = e[3] if e[0] == 'for' else None
        while isinstance(x, list) and (x[0] == 'ref' or x[0] == 'mcall' and x[3] in ('iter', 'into_iter')):
            x = x[3] if x[0] == 'ref' else x[2]
        return x[2].replace(' ', '') if isinstance(x, list) and x[0] == 'path' else None

    def is_err(self, e):
        return isinstance(e, list) and e and e[0] == 'call' and e[2][0] == 'path' and tail(e[2][2].replace(' ', '')) == 'Err'

    def mcall(self, e, st):
        st = self.go(e[2], st)
        st = self.seq(e[4], st)
        if st is None:
            return None
        b = self.kind(e[2])
        n = e[3]
        if b in ('recv', 'handle') and n in CHECKS:
            return True
        if b in ('handle', 'raw') and n in self.an.mut:
            self.write(e[1], n, st)
        elif b == 'recv' and n in RAW and n.startswith(('replace', 'set_')):
            self.write(e[1], n, st)
        elif b == 'raw' and n not in ('len', 'is_empty', 'as_bytes', 'encoding', 'clone', 'check_utf8'):
            pass
        elif b is None:
            # a method of the executor or of the globals that is given the receiver
            for a in e[4]:
                k = self.kind(a)
                if k == 'module' and n in MODULE:
                    self.write(e[1], n, st)
                elif k == 'handle' and a[0] == 'ref' and a[2]:
                    self.write(e[1], n, st)
        return st

    def call(self, e, st):
        st = self.seq(e[3], st)
        if st is None or e[2][0] != 'path':
            return self.go(e[2], st) if st is not None else None
        p = e[2][2].replace(' ', '')
        if tail(p) == 'Err':
            return None if False else st
        for i, a in enumerate(e[3]):
            k = self.kind(a)
            if k in ('lfp', 'recv', 'handle', 'raw', 'module'):
                if p in ('Ok', 'Some', 'std::mem::swap', 'std::mem::replace', 'std::mem::take') or p.endswith(('mem::swap', 'mem::replace', 'mem::take')):
                    if p.endswith(('swap', 'replace', 'take')) and k in ('handle', 'raw'):
                        self.write(e[1], tail(p), st)
                    continue
                g = self.an.resolve(self.f, p)
                if g is None or i >= len(g.params):
                    if k == 'handle' and a[0] == 'ref' and a[2]:
                        self.write(e[1], tail(p), st)
                    continue
                ty = g.params[i][1].replace(' ', '')
                mut = g.params[i][0].replace(' ', '').startswith('mut') or ty.startswith('&mut')
                kk = 'module' if k == 'module' and ty in ('ClassId', 'Module') else 'lfp' if ty in ('Lfp', '&Lfp') else 'recv' if ty in ('Value', '&mutValue', '&Value') else \
                    'handle' if ty in ('Array', '&mutArray', 'Hashmap', '&mutHashmap', 'RString', '&mutRString') else \
                    'handle' if k == 'raw' and ty.startswith('&mut') else None
                if kk is None:
                    continue
                ok, writes = self.an.run(g, kk, name_of(g.params[i]), st is True)
                self.writes += writes
                if ok and st is not True:
                    st = True
        return st


def builtins(t):
    for f in t.fns:
        if f.body and f.file.startswith('builtins') and any('monoruby_builtin' in a for a in f.attrs) and \
                any(p[1].replace(' ', '') == 'Lfp' for p in f.params):
            yield f


# reviewed: the method that may be called on a frozen receiver only by library code that has tested before
INTERNAL = {('builtins/hash.rs', 'set_value_at'): ('hash.rb', '__set_value_at')}


def library(bad):
    """Library code that uses an internal method on self first raises when self is frozen."""
    n = 0
    for (file, name), (rb, meth) in INTERNAL.items():
        p = os.path.join(framework.REPO, 'monoruby/builtins', rb)
        if not os.path.exists(p):
            raise framework.AnchorMissing(p)
        tested = None
        for i, l in enumerate(open(p), 1):
            l = l.split('#')[0] if '#{' not in l else l
            m = re.match(r'\s*def (\S+)', l)
            if m:
                tested, cur = False, m.group(1)
            if re.search(r'\braise\b.*\bif (self\.)?frozen\?', l):
                tested = True
            if re.search(r'(?<![\w.])(self\.)?%s\b' % meth, l):
                n += 1
                if not tested:
                    bad.append(('library|%s|%s' % (rb, cur), '../builtins/' + rb, i, '%s changes self through %s without the frozen test' % (cur, meth)))
    for f in glob.glob(os.path.join(framework.REPO, 'monoruby/builtins/*.rb')):
        for (file, name), (rb, meth) in INTERNAL.items():
            if os.path.basename(f) != rb and meth in open(f).read():
                bad.append(('library|%s' % os.path.basename(f), '../builtins/' + os.path.basename(f), 1, '%s is used outside %s' % (meth, rb)))
    return n


def c23(t):
    an = An(t)
    n, bad = 0, []
    touched = 0
    for f in builtins(t):
        n += 1
        before = an.sites
        lfp = [name_of(p) for p in f.params if p[1].replace(' ', '') == 'Lfp'][0]
        ok, writes = an.run(f, 'lfp', lfp)
        touched += an.sites > before
        for line, what, file in writes:
            if (f.file, f.name) not in INTERNAL:
                bad.append(('builtin|%s|%s|%s' % (f.file, f.name, what), file, line,
                            '%s changes its receiver (%s) before the frozen test on some path' % (f.name, what)))
    r = {'builtins': n, 'sites': an.sites, 'mutating': touched, 'library': library(bad)}
    r['definitions'], more = definitions(t)
    g, emit = emitted(t, an)
    r.update(g)
    return r, bad + more + emit


# ------------------------------------------------------------------------------------------------ definitions
def flat(n):
    """Rough text of a node: every path, method and literal below it in order."""
    if isinstance(n, list):
        return ' '.join(flat(x) for x in n if isinstance(x, (list, str)))
    return n if isinstance(n, str) else ''


def calls_in(n, *names):
    return [x for x in find(n, 'mcall') if x[3] in names] + \
        [x for x in find(n, 'call') if x[2][0] == 'path' and tail(x[2][2].replace(' ', '')) in names]


def raises(n):
    return bool(calls_in(n, 'cant_modify_frozen'))


def lets(body):
    env = {}
    for l in find(body, 'local'):
        if l[2][0] == 'pident' and l[3]:
            env[l[2][2]] = None if l[2][2] in env else l[3]
    return env


def peel(c, env):
    """-> (condition without parentheses, negations and single bindings, polarity)"""
    pos = True
    for _ in range(20):
        if c[0] in ('paren', 'group'):
            c = c[2]
        elif c[0] == 'un' and c[2] == '!':
            c, pos = c[3], not pos
        elif c[0] == 'path' and env.get(c[2].replace(' ', '')):
            c = env[c[2].replace(' ', '')]
        else:
            break
    return c, pos


def gives_err(f, test):
    """The function leaves with the frozen error whenever `test` says so: an `if` on the bare test."""
    env = lets(f.body)
    for x in find(f.body, 'if'):
        c, pos = peel(x[2], env)
        if c[0] == 'mcall' and c[3] == test:
            if pos and raises(x[3]) or not pos and (raises(x[4]) if x[4] else any(find(x[3], 'return')) and not raises(x[3]) and raises(f.body)):
                return True
    return False


def tried(body, name, before):
    """The result of `name(..)` decides: the call is not in a branch, is not thrown away, and stands before every call of
    `before`."""
    hit, bad = [], []

    def go(e, cond, used):
        if not isinstance(e, list) or not e:
            return
        k = e[0]
        if not isinstance(k, str):
            for x in e:
                go(x, cond, used)
            return
        if k in ('block', 'unsafe'):
            for i, x in enumerate(e[2]):
                go(x, cond, used)
            return
        if k == 'semi':
            go(e[2], cond, False)
            return
        if k == 'local':
            go(e[3], cond, e[2][0] != 'pwild')
            return
        if k == 'if':
            go(e[2], cond, True)
            go(e[3], cond + (() if hit else (1,)), used)
            go(e[4], cond + (() if hit else (1,)), used)
            return
        if k == 'match':
            go(e[2], cond, True)
            for a in e[3]:
                go(a[4], cond + (() if hit else (1,)), used)
            return
        if k == 'try':
            go(e[2], cond, True)
            return
        if k == 'tail':
            go(e[2], cond, True)
            return
        if k == 'closure':
            go(e[-1], cond + (() if hit else (1,)), True)
            return
        if k == 'mcall':
            go(e[2], cond, used if e[3] not in ('ok', 'is_ok', 'is_err', 'unwrap_or_default') else False)
            go(e[4], cond, True)
            if e[3] == name and not cond and used:
                hit.append(e[1])
            if e[3] in before and not hit:
                bad.append(e[1])
            return
        if k == 'call':
            go(e[3], cond, True)
            if e[2][0] == 'path' and tail(e[2][2].replace(' ', '')) in before and not hit:
                bad.append(e[1])
            return
        for x in e[2:]:
            go(x, cond, True)
    go(body, (), True)
    return bool(hit) and not bad


DEFS = {  # function: (file, owner, what must hold)
    'as_array_mut': ('ensure_not_frozen', ('as_array',)),
    'as_hash_mut': ('ensure_not_frozen', ('as_hash',)),
    'ensure_string_mutable': ('ensure_not_frozen', ()),
    'as_string_mut': ('ensure_string_mutable', ('new_unchecked',)),
}
IVARS = (('globals/store/class/instance_var.rs', 'set_ivar'), ('globals/store/class/instance_var.rs', 'remove_ivar'))


def definitions(t):
    out, n = [], 0

    def bad(key, f, msg, line=None):
        out.append((key, f.file, line or f.line, msg))
    for name in ('ensure_not_frozen', 'try_rvalue_mut_or_frozen'):
        f = t.fn(name, 'value.rs', 'Value')
        n += 1
        if not gives_err(f, 'is_frozen'):
            bad('definition|' + name, f, '%s does not raise for every frozen value' % name)
    for name, (must, before) in sorted(DEFS.items()):
        f = t.fn(name, 'value.rs', 'Value')
        n += 1
        if not tried(f.body, must, before):
            bad('definition|' + name, f, '%s gives out a changeable handle without testing for frozenness' % name)
    for file, name in IVARS:
        f = t.fn(name, file)
        n += 1
        got = False
        for s in f.body[2]:
            if calls_in(s, 'set_ivar_by_ivarid', 'remove_ivar_by_ivarid', 'set_ivar', 'take') and not got:
                break
            if any(x[2][0] == 'mcall' and x[2][3] in ('try_rvalue_mut_or_frozen', 'ensure_not_frozen') for x in find(s, 'try')):
                got = True
        if not got:
            bad('definition|' + name, f, '%s changes an instance variable without the frozen test' % name)
    # Value::is_frozen: packed values, numbers, and the header bit
    f = t.fn('is_frozen', 'value.rs', 'Value')
    n += 1
    tx = flat(f.body)
    miss = [k for k in ('BIGNUM', 'FLOAT', 'COMPLEX', 'RATIONAL') if k not in tx]
    arms = [a for m in choices(f.body) for a in m[3]]
    none = [a for a in arms if flat(a[2]).replace(' ', '').endswith('None')]
    if miss or not calls_in(f.body, 'is_frozen') or (none and any(x[2] in ('false', False) for x in find(none[0][4], 'lit'))):
        bad('definition|is_frozen', f, 'some immutable value is not reported as frozen (%s)' % (', '.join(miss) or 'header bit or packed values'))
    # one bit
    bits = {}
    for name in ('is_frozen', 'set_frozen', 'clear_frozen'):
        for f in t.by_name.get(name, ()):
            if f.file == 'value/rvalue.rs' and f.owner != 'RValue':
                lits = [x[2] for x in find(f.body, 'lit')]
                v = [int(str(x).replace('_', ''), 0) for x in lits if re.match(r'^(0b|0x)?[0-9a-f_]+$', str(x))]
                bits[name] = (f, sorted({x for x in v if x}))
                n += 1
    want = set(map(tuple, (v for _, v in bits.values())))
    if len(bits) != 3:
        raise framework.AnchorMissing('the frozen bit of the object header')
    if len(want) != 1 or want != {(2,)}:
        f = bits['is_frozen'][0]
        bad('definition|bit', f, 'set, clear and test of the frozen bit disagree, or the generated code tests another bit: %s' %
            {k: v for k, (_, v) in bits.items()})
    # interpreter entry for a[i] = v and the slow path of an instance variable
    f = t.fn('set_index', 'codegen/runtime.rs')
    n += 1
    if not before_use(f.body):
        bad('runtime|set_index', f, 'an array element is assigned without the frozen test')
    f = [x for x in t.fns if x.file == 'codegen.rs' and x.body and calls_in(x.body, 'try_rvalue_mut_or_frozen')]
    n += 1
    if not f:
        g = [x for x in t.fns if x.file == 'codegen.rs' and x.body and calls_in(x.body, 'set_ivar_by_ivarid')]
        if not g:
            raise framework.AnchorMissing('the runtime function that sets an instance variable')
        bad('runtime|set_instance_var', g[0], 'the runtime function sets an instance variable without the frozen test')
    return n, out


def before_use(body):
    """Every `as_array().set_index(..)` is after an `if x.is_frozen() { .. return }` in the same block chain."""
    ok = [True]

    def seq(stmts, st):
        for s in stmts:
            for u in find(s, 'if'):
                pass
            e = s[2] if s[0] in ('semi', 'tail') else s[3] if s[0] == 'local' else None
            if e is None:
                continue
            st = go(e, st)
        return st

    def go(e, st):
        if not isinstance(e, list) or not e:
            return st
        if e[0] in ('block', 'unsafe'):
            return seq(e[2], st)
        if e[0] == 'if':
            t = e[2][0] == 'mcall' and e[2][3] == 'is_frozen'
            go(e[3], st)
            if e[4]:
                go(e[4], st or t)
            if t and any(find(e[3], 'return')):
                return True
            return st
        if e[0] == 'mcall' and e[3] == 'set_index' and calls_in(e[2], 'as_array') and not st:
            ok[0] = False
        for x in e[2:]:
            if isinstance(x, list):
                st = go(x, st) if x and isinstance(x[0], str) else seq2(x, st)
        return st

    def seq2(xs, st):
        for x in xs:
            if isinstance(x, list):
                st = go(x, st) if x and isinstance(x[0], str) else seq2(x, st)
        return st
    seq(body[2], False)
    return ok[0]


# ------------------------------------------------------------------------------------------------ generated code
INST = {'StoreIVarInline', 'StoreIVarHeap', 'StoreSelfIVarHeap', 'StoreStructSlotInline', 'StoreStructSlotHeap', 'ArrayIndexAssign'}
EMIT = {'emit_array_shl', 'emit_array_rotate_', 'emit_array_slice_assign', 'emit_hash_default_assign'}
SELF_TESTING = {'emit_string_setbyte', 'emit_string_shl'}
LICENCE = ('frozen_checked', 'instr_unfrozen_contains')


class Gen:
    """`guard_frozen` before every emission of a change, on every path through the generator."""

    def __init__(self, an, f):
        self.an, self.f, self.uses, self.bad = an, f, 0, []
        self.lets = {}

    def seq(self, xs, st):
        for x in xs:
            if st is None:
                return None
            st = self.go(x, st)
        return st

    def licence(self, c):
        """True when the condition is the proof itself, False when it is its negation, None otherwise"""
        c, pos = peel(c, self.lets)
        if c[0] == 'path' and c[2].replace(' ', '') in LICENCE or c[0] == 'mcall' and c[3] in LICENCE:
            return pos
        return None

    def go(self, e, st):
        if st is None or not isinstance(e, list) or not e:
            return st
        k = e[0]
        if not isinstance(k, str):
            return self.seq(e, st)
        if k == 'local':
            if e[2][0] == 'pident' and e[3]:
                self.lets[e[2][2]] = e[3]
            st2 = self.go(e[3], st) if e[3] else st
            if e[4]:
                self.go(e[4], st2)
            return st2
        if k == 'if':
            st = self.go(e[2], st)
            lic = self.licence(e[2])                      # the proof carried along the straight path replaces the guard
            a = self.go(e[3], True if lic is True else st)
            b = self.go(e[4], True if lic is False else st) if e[4] else True if lic is False else st
            s = [x for x in (a, b) if x is not None]
            return None if not s else all(s)
        if k == 'match':
            st = self.go(e[2], st)
            outs = []
            for a in e[3]:
                s = self.go(a[3], st) if a[3] else st
                outs.append(self.go(a[4], s))
            outs = [x for x in outs if x is not None]
            return None if not outs else all(outs)
        if k in ('for', 'while', 'loop'):
            for x in e[2:-1]:
                if isinstance(x, list):
                    st = self.go(x, st)
            self.go(e[-1], st)
            return st
        if k == 'closure':
            self.go(e[-1], st)
            return st
        if k == 'return':
            self.go(e[2], st) if e[2] else None
            return None
        if k in ('break', 'continue'):
            return None
        if k == 'struct':
            for x in e[3]:
                st = self.go(x[1], st) if isinstance(x, list) and len(x) > 1 else st
            n = tail(e[2].replace(' ', '')) if isinstance(e[2], str) else ''
            if n in INST and e[2].replace(' ', '').split('::')[0] == 'AsmInst':
                self.use(e[1], n, st)
            return st
        if k == 'mcall':
            st = self.go(e[2], st)
            st = self.seq(e[4], st)
            if st is None:
                return None
            if e[3] in ('guard_frozen', 'store_ivar'):
                return True
            if e[3] == 'prove_unfrozen':
                self.use(e[1], e[3], st)
            if e[3] in EMIT:
                self.use(e[1], e[3], st)
            if e[3].startswith('emit_') and self.f.file.startswith('builtins'):
                self.helper(e, st)
            return st
        if k == 'item':
            return st
        for x in e[2:]:
            if isinstance(x, list):
                st = self.go(x, st)
                if st is None:
                    return None
        return st

    def use(self, line, what, st):
        self.uses += 1
        if not st:
            self.bad.append((line, what, 'no frozen guard is emitted before it on some path of the generator'))

    def helper(self, e, st):
        for a in e[4]:
            for c in find(a, 'cast'):
                if c[2][0] != 'path':
                    continue
                g = self.an.resolve(self.f, c[2][2].replace(' ', ''))
                if g is None:
                    continue
                v = [name_of(p) for p in g.params if p[1].replace(' ', '') == 'Value']
                if not v:
                    continue
                self.uses += 1
                _, writes = self.an.run(g, 'recv', v[0], bool(st))
                for line, what, file in writes:
                    self.bad.append((e[1], g.name, 'the runtime function changes the receiver (%s, line %d) and neither it nor the '
                                     'generated code tests for frozenness' % (what, line)))


STORE_X86 = re.compile(r'^(mov[bwlq]?|add[bwlq]|sub[bwlq]|or[bwlq]|and[bwlq]|xor[bwlq])\s*\[')
STORE_ARM = re.compile(r'^(str|strb|strh|stp|stur)\b')


def events(n):
    """Instructions, conditional branches and labels below n in order; a nested list for a conditional part."""
    ev = []
    if not isinstance(n, list) or not n:
        return ev
    k = n[0]
    if k == 'macro' and n[2].startswith('monoasm'):
        tx = n[3].split(',', 1)[1] if ',' in n[3] else ''
        depth, cur = 0, ''
        for ch in tx:
            depth += ch in '([{'
            depth -= ch in ')]}'
            if ch == ';' and depth == 0:
                ev.append(('i', cur.strip()))
                cur = ''
            else:
                cur += ch
        out = []
        for kind, s in ev:
            m = re.match(r'^(\w+) : (.*)$', s)
            while m and '::' not in s[:len(m.group(1)) + 3]:
                s = m.group(2).strip()
                m = re.match(r'^(\w+) : (.*)$', s)
            out.append((kind, s))
        return out
    if k == 'mcall':
        for x in n[2:]:
            if isinstance(x, list):
                ev += events(x) if x and isinstance(x[0], str) else [y for z in x for y in events(z)]
        if n[3] in ('bcond_label', 'tbnz_label', 'cbnz_label'):
            ev.append(('i', 'bcond ' + flat(n[4])))
        return ev
    if k == 'if':
        ev += events(n[2])
        ev.append(('sub', events(n[3])))
        if n[4]:
            ev.append(('sub', events(n[4])))
        return ev
    for x in (n[2:] if isinstance(k, str) else n):
        if isinstance(x, list):
            ev += events(x)
    return ev


def const(s):
    m = re.search(r'(0b[01_]+|0x[0-9a-fA-F_]+|\b\d+)(?:u64|i64|u32|i32)?', s)
    return int(m.group(1).replace('_', ''), 0) if m else None


def leaves_if(evs, i, taken):
    """A conditional branch taken when the tested bits are set follows within two instructions."""
    for kind, s in evs[i + 1:i + 3]:
        if kind != 'i':
            return False
        if re.match(r'^(jne|jnz)\b', s) or re.match(r'^cbnz\b', s) or s.startswith('bcond') and 'Ne' in s:
            return True
        if re.match(r'^j', s) or s.startswith('bcond') or s.startswith('cbz'):
            return False
    return False


def tested(evs, need, st=False):
    """-> list of stores that come before the frozen test; `need` bits must be in the mask."""
    out, mask, flagged = [], None, False
    for i, (kind, s) in enumerate(evs):
        if kind == 'sub':
            out += tested(s, need, st)
            continue
        if 'RVALUE_OFFSET_FLAG' in s:
            if s.startswith('test'):
                m = const(s.rsplit(',', 1)[1])
                if m is not None and m & need == need and leaves_if(evs, i, True):
                    st = True
            else:
                flagged = True
                # the mask in one of the next instructions
                for j in range(i + 1, min(i + 4, len(evs))):
                    if evs[j][0] != 'i':
                        break
                    u = evs[j][1]
                    m = const(u.rsplit(',', 1)[1]) if ',' in u and re.match(r'^(test[bwlq]|tst|mov|and|ands)\b', u) and '(' in u else None
                    if m is not None:
                        if m & need == need and any(leaves_if(evs, q, True) for q in range(j, min(j + 3, len(evs)))):
                            st = True
                        break
            continue
        if (STORE_X86.match(s) or STORE_ARM.match(s)) and not st and '[sp' not in s.replace(' ', '') and '[rsp' not in s.replace(' ', ''):
            out.append(s)
    return out


def emitted(t, an):
    out, n = [], {'generators': 0, 'uses': 0, 'emitters': 0}
    for f in t.fns:
        if not f.body or not (f.file.startswith('codegen/jitgen') or f.file.startswith('builtins')):
            continue
        if f.file.endswith('compile_shared.rs') or not any('AsmIr' in p[1] for p in f.params):
            continue
        g = Gen(an, f)
        g.go(f.body, False)
        if g.uses:
            n['generators'] += 1
            n['uses'] += g.uses
        for line, what, msg in g.bad:
            out.append(('generated|%s|%s|%s' % (f.file, f.name, what), f.file, line,
                        '%s emits %s: %s' % (f.name, what, msg)))
    for arch in ('x86_64', 'aarch64'):
        for name in sorted(SELF_TESTING):
            c = [f for f in t.by_name.get(name, ()) if f.file.startswith('codegen/arch/' + arch) and f.body]
            if not c:
                raise framework.AnchorMissing('%s on %s' % (name, arch))
            n['emitters'] += 1
            late = tested(events(c[0].body), 6)
            if late:
                out.append(('emitter|%s|%s' % (arch, name), c[0].file, c[0].line,
                            '%s changes the string without the test of the frozen and chilled bits before `%s`' % (name, late[0])))
    # guard_frozen itself
    g = t.fn('guard_frozen', 'codegen/jitgen/asmir.rs')
    n['emitters'] += 1
    if not any(tail(x[2].replace(' ', '')) == 'GuardFrozen' for x in find(g.body, 'struct')):
        out.append(('emitter|guard_frozen', g.file, g.line, 'guard_frozen emits no guard'))
    g = t.fn('guard_frozen', 'codegen/arch/x86_64/compile/variables.rs')
    n['emitters'] += 1
    if tested(events(g.body) + [('i', 'movq [rdi], rax')], 2):
        out.append(('emitter|x86_64|guard_frozen', g.file, g.line, 'the guard does not leave when the frozen bit is set'))
    arms = [(f, a) for f in t.fns if f.body and f.file.startswith('codegen/arch/aarch64') for m in choices(f.body) for a in m[3]
            if a[2][0] == 'pstruct' and tail(a[2][2].replace(' ', '')) == 'GuardFrozen']
    if not arms:
        raise framework.AnchorMissing('GuardFrozen on aarch64')
    n['emitters'] += 1
    if not any(not tested(events(a[4]) + [('i', 'str x0, [x1]')], 2) for _, a in arms):
        out.append(('emitter|aarch64|guard_frozen', arms[0][0].file, arms[0][1][1],
                    'the guard does not leave when the frozen bit is set'))
    m, o = proofs(t)
    n['proofs'] = m
    return n, out + o


# the instructions that may carry proofs on: they run no Ruby code and reach no safepoint
CARRY = {'FrozenLiteral', 'Literal', 'LoadIvar', 'StoreIvar', 'LoadDynVar', 'StoreDynVar', 'InlineCache', 'Mov'}


def proofs(t):
    """A frozen guard is left out only under a proof of the same straight path."""
    out, n = [], 0
    f = t.fn('compile_basic_block', 'codegen/jitgen/compile.rs')

    def clears(e, what):
        return any(x[3] == 'clear' and x[2][0] == 'field' and x[2][3] == what for x in find(e, 'mcall'))
    n += 1
    ok = False
    for s in f.body[2]:
        if calls_in(s, 'compile_instruction') and not ok:
            break
        if s[0] == 'semi' and clears(s, 'unfrozen_slots'):
            ok = True
    if not ok:
        out.append(('proof|block', f.file, f.line, 'proofs of unfrozen slots survive from one basic block into another'))
    f = t.fn('compile_instruction', 'codegen/jitgen/compile.rs')
    n += 1
    ok = st = False
    for s in f.body[2]:
        e = s[2] if s[0] in ('semi', 'tail') else None
        if e is not None and e[0] == 'mcall' and clears(s, 'instr_unfrozen'):
            st = True
        if e is not None and e[0] == 'call' and 'instr_unfrozen' in flat(e) and 'unfrozen_slots' in flat(e) and \
                e[2][0] == 'path' and tail(e[2][2].replace(' ', '')) in ('swap',):
            ok = st
        if e is not None and e[0] == 'assign' and flat(e[2]).endswith('instr_unfrozen') and calls_in(e[3], 'take') and 'unfrozen_slots' in flat(e[3]):
            ok = True
        if any(find(s, 'match')) and calls_in(s, 'restore_unfrozen'):
            break
    if not ok:
        out.append(('proof|instruction', f.file, f.line, 'proofs of unfrozen slots are not taken away at the start of an instruction'))
    for m in choices(f.body):
        for a in m[3]:
            if not calls_in(a[4], 'restore_unfrozen'):
                continue
            for p in find(a[2], 'pts', 'pstruct', 'ppath', 'path'):
                if not isinstance(p[2], str) or not p[2].replace(' ', '').startswith('TraceIr::'):
                    continue
                n += 1
                v = tail(p[2].replace(' ', ''))
                if v not in CARRY:
                    out.append(('proof|carry|' + v, f.file, a[1], 'proofs of unfrozen slots are carried over %s, which is '
                                'not among the instructions that run no Ruby code and reach no safepoint' % v))
    f = t.fn('restore_unfrozen', 'codegen/jitgen/context.rs')
    n += 1
    dropped = any(x[3] == 'retain' for x in find(f.body, 'mcall'))
    armed = all(w in flat(f.body) for w in ('in_dispatch_arm', 'in_set_guarded_arm'))
    if not dropped or not armed:
        out.append(('proof|restore', f.file, f.line, 'a proof about a redefined slot or from one arm of a dispatch is kept'))
    f = t.fn('prove_unfrozen', 'codegen/jitgen/context.rs')
    n += 1
    if not all(w in flat(f.body) for w in ('in_dispatch_arm', 'in_set_guarded_arm')):
        out.append(('proof|prove', f.file, f.line, 'a proof from one arm of a dispatch is published'))
    f = t.fn('instr_unfrozen_contains', 'codegen/jitgen/context.rs')
    n += 1
    if not calls_in(f.body, 'contains'):
        out.append(('proof|contains', f.file, f.line, 'the guard is left out without a proof'))
    return n, out

