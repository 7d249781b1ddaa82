"""C29: every store of a reference into an object that can be old is followed by the write barrier."""
import re

import framework
from guards import leaves, walk
from syntree import choices, find, path

# the kinds whose stores have been reviewed, and the payload accessor that hands out their references
KINDS = {'OBJECT': 'as_object', 'STRING': 'as_rstring', 'ARRAY': 'as_array', 'STRUCT': 'as_struct_inner',
         'HASH': 'as_hashmap', 'BIGNUM': None, 'FLOAT': None}
# hand out a mutable payload of such an object without a barrier
RAW = {'as_array_inner_mut', 'as_hashmap_inner_mut', 'as_struct_mut', 'as_struct_inner_mut', 'as_object_mut',
       'as_hashmap_mut', 'as_array_mut'}
HANDLE = {'as_array_inner_mut', 'as_hashmap_inner_mut', 'as_struct_mut', 'as_object_mut'}
# methods of the payloads that store no reference
QUIET = {'mark', 'remove', 'clear', 'shift', 'truncate', 'pop', 'drain', 'retain', 'set_ruby2_keywords_flag',
         'unset_ruby2_keywords_flag', 'set_compare_by_identity_empty', 'set_flags', 'flags', 'len', 'swap', 'reverse',
         'rotate_left', 'rotate_right', 'dedup'}
BARRIER = {'write_barrier', 'write_barrier_bulk'}
# the emitters of inline stores: (barriers for one value, barriers for many)
EMITTERS = {'array_index_assign': (2, 0), 'emit_hash_default_assign': (1, 0), 'emit_array_slice_assign': (0, 1),
            'emit_array_shl': (1, 0), 'store_ivar_heap': (1, 0)}
SHARED_ARMS = ('StoreIVarInline', 'StoreSelfIVarHeap', 'StoreStructSlotInline', 'StoreStructSlotHeap')
# content stores into strings whose new content was confirmed to own its bytes
OWNED = {('builtins/string.rs', 'scrub_'): 'the branch that copies the receiver is excluded by the early return',
         ('builtins/io.rs', 'io_read'): 'the copied string was built from bytes just read',
         ('builtins/io.rs', 'read'): 'the copied string was built from bytes just read'}


def tail(p):
    return str(p).replace(' ', '').split('::')[-1]


def text(n):
    """Canonical text of a place expression."""
    if not isinstance(n, list) or not n:
        return '?'
    k = n[0]
    if k == 'path':
        return n[2].replace(' ', '')
    if k == 'field':
        return text(n[2]) + '.' + str(n[3])
    if k in ('paren', 'ref', 'un'):
        return text(n[-1])
    if k == 'mcall' and n[3] in ('self_val', 'rvalue_mut', 'as_val', 'as_ref', 'as_mut'):
        return text(n[2]) + ('.self' if n[3] == 'self_val' else '')
    if k in ('unsafe', 'block') and len(n[2]) == 1:
        return text(n[2][0])
    if k in ('tail', 'semi'):
        return text(n[2])
    return '?'


def strip(n):
    while isinstance(n, list) and n and (n[0] in ('paren', 'try', 'tail') or n[0] in ('unsafe', 'block') and len(n[2]) == 1):
        n = n[2][0] if n[0] in ('unsafe', 'block') else n[2]
    return n


class Stores:
    """Stores of references through raw accessors in one function, with the statement path to each."""

    def __init__(self, f):
        self.f = f
        self.alias = {}       # local -> (accessor, text of the object)
        self.out = []         # (line, object text, what, list of (block statements, index) from outermost to innermost)
        self.barriers = []    # (line, object text, child text or None, path)
        self.go(f.body, [])

    def raw(self, n):
        """(accessor, object) if n is a payload handle."""
        n = strip(n)
        if isinstance(n, list) and n and n[0] == 'un' and n[2] == '*':
            return self.raw(n[3])
        if isinstance(n, list) and n and n[0] == 'ref':
            return self.raw(n[3])
        if isinstance(n, list) and n and n[0] == 'mcall' and n[3] in RAW and not n[4]:
            return n[3], text(n[2])
        if isinstance(n, list) and n and n[0] == 'path' and n[2] in self.alias:
            return self.alias[n[2]]
        if isinstance(n, list) and n and n[0] == 'field' and n[3] in ('var_table', 'kind') and self.f.file == 'value/rvalue.rs':
            return n[3], text(n[2])
        return None

    def go(self, n, pth):
        if not isinstance(n, list) or not n:
            return
        if not isinstance(n[0], str) or len(n) < 2 or not isinstance(n[1], int):
            for x in n:
                self.go(x, pth)
            return
        k = n[0]
        if k in ('block', 'unsafe') and isinstance(n[2], list):
            for i, s in enumerate(n[2]):
                self.go(s, pth + [(n[2], i)])
            return
        if k == 'local' and isinstance(n[2], list) and n[3] is not None:
            r = self.raw(n[3])
            if r:
                for p in find(n[2], 'pident'):
                    self.alias[p[2]] = r
        if k == 'match':
            r = self.raw(n[2])
            if r:
                for a in n[3]:
                    for p in find(a[2], 'pident'):
                        self.alias[p[2]] = r
        if k == 'let':
            r = self.raw(n[3])
            if r:
                for p in find(n[2], 'pident'):
                    self.alias[p[2]] = r
        if k == 'mcall':
            r = self.raw(n[2])
            if n[3] in BARRIER:
                self.barriers.append((n[1], text(n[2]), text(n[4][0]) if n[4] else None, pth))
            elif r and r[0] != 'kind' and n[3] not in QUIET and n[3] not in RAW and self.takes(n):
                two = r[0].startswith('as_hashmap') and n[3] == 'insert'
                self.out.append((n[1], r[1], 'insert of key and value' if two else n[3], n[4], pth))
        if k == 'assign':
            l = n[2]
            if isinstance(l, list) and l[0] == 'index':
                l = l[2]
            r = self.raw(l)
            if r and not self.none(n[3]):
                self.out.append((n[1], r[1], 'assignment', [n[3]], pth))
        if k == 'call' and tail(path(n[2]) or '') in ('swap', 'replace') and 'mem' in (path(n[2]) or ''):
            for a in n[3]:
                r = self.raw(a)
                if r:
                    self.out.append((n[1], r[1], 'exchange', [], pth))
        for x in n[2:]:
            self.go(x, pth)

    def takes(self, n):
        """Does a call on a payload hand over something that can be a reference?"""
        for a in n[4]:
            a = strip(a)
            if isinstance(a, list) and a and a[0] in ('lit', 'closure', 'range'):
                continue
            if isinstance(a, list) and a and a[0] == 'bin':
                continue
            if text(a) in ('vm', 'globals', 'store', 'heap_len', 'len', 'index', 'i'):
                continue
            return True
        return n[3] in ('compare_by_identity',)

    @staticmethod
    def none(n):
        n = strip(n)
        return isinstance(n, list) and n and (n[0] == 'path' and n[2] == 'None' or n[0] == 'lit')

    def covered(self, st):
        """A barrier on the same object follows on the way out of the function (it lies in a later statement of a block
        that encloses the store, or in a later part of the same statement), or none can run between."""
        line, obj, what, args, pth = st
        for bl, bo, child, bp in self.barriers:
            if bo != obj or child is not None and what == 'insert of key and value':
                continue
            if child is not None and what not in ('insert', 'fill', 'push', 'assignment', 'set') and \
                    child not in [text(a) for a in args]:
                continue
            if child is not None and what in ('insert', 'fill', 'push', 'set') and child not in [text(a) for a in args]:
                continue
            if child is not None and what == 'assignment' and args and child not in self.carried(args[0]):
                continue
            # the barrier's own block must enclose the store
            if len(bp) <= len(pth) and all(bp[i][0] is pth[i][0] for i in range(len(bp))) and \
                    all(bp[i][1] == pth[i][1] for i in range(len(bp) - 1)) and bp[-1][1] >= pth[len(bp) - 1][1] and \
                    not any(leaves(x) for b, i in pth[len(bp):] for x in b[i + 1:]):
                return True
        return False

    def carried(self, n):
        """Values an assigned expression carries, with those stored into a local table it hands over."""
        out = inner(n)
        for a in find(self.f.body, 'assign'):
            if isinstance(a[2], list) and a[2][0] == 'index' and text(a[2][2]) in out:
                out = out | inner(a[3])
        return out


def inner(n):
    """Texts of the values an assigned expression carries."""
    out = {text(n)}
    for p in find(n, 'path'):
        out.add(p[2].replace(' ', ''))
    return out


EXEMPT = {'extend_ivar': 'the table is only lengthened by empty slots',
          'free': 'the object is being freed', 'new_invalid': 'no object yet',
          'remove_ivar_by_ivarid': 'only removes'}
MUT_FILES = ('value.rs', 'value/')


def stores(t):
    n, bad = 0, []
    for fs in t.by_name.values():
        for f in fs:
            if not f.body or f.name in EXEMPT and f.owner == 'RValue' or 'tests' in (f.mod or ()):
                continue
            names = {m[3] for m in find(f.body, 'mcall')} | {m[3] for m in find(f.body, 'field')}
            if not names & (HANDLE | {'as_struct_inner_mut', 'as_hashmap_mut', 'var_table', 'kind'}):
                continue
            in_value = f.file == 'value.rs' or f.file.startswith('value/')
            s = Stores(f)
            for st in s.out:
                if st[2] == 'exchange' or st[1] != '?' or in_value:
                    n += 1
                    if not s.covered(st):
                        bad.append((f, st[0], 'store|%s|%s' % (f.full, st[2]),
                                    'a reference is stored into the payload of `%s` (%s) and no write barrier on it '
                                    'follows on that path' % (st[1], st[2])))
            if not in_value:
                for m in find(f.body, 'mcall'):
                    if m[3] in HANDLE | {'as_struct_inner_mut', 'as_hashmap_mut'} and not m[4]:
                        bad.append((f, m[1], 'raw|%s|%s' % (f.full, m[3]),
                                    'the payload is handed out mutably without a barrier outside the object module'))
    return n, bad


def strings(t):
    """Content of strings: a view into another string's buffer is a reference."""
    n, bad = 0, []
    shared = {'clone', 'from_shared'}
    ret = {}
    for fs in t.by_name.values():
        for f in fs:
            if f.body and f.ret and 'RStringInner' in str(f.ret) or (f.owner == 'RStringInner' and f.ret and 'Self' in str(f.ret)):
                ret.setdefault(f.name, []).append(f)
    may = set(shared)
    while True:
        more = {k for k, v in ret.items() if k not in may and any(f.body and copies(f.body, may, ret) for f in v)}
        if not more:
            break
        may |= more
    for fs in t.by_name.values():
        for f in fs:
            if not f.body or 'tests' in (f.mod or ()):
                continue
            blocks = None
            for a in find(f.body, 'assign'):
                l = strip(a[2])
                obj = None
                if isinstance(l, list) and l[0] == 'un' and l[2] == '*':
                    m = strip(l[3])
                    if isinstance(m, list) and m[0] == 'mcall' and m[3] in ('as_rstring_inner_mut', 'as_rstring_mut'):
                        obj = text(m[2])
                elif isinstance(l, list) and l[0] == 'field' and l[3] == 'content':
                    m = strip(l[2])
                    if isinstance(m, list) and m[0] == 'mcall' and m[3] == 'as_rstring_inner_mut':
                        obj = text(m[2])
                if obj is None:
                    continue
                n += 1
                if not mayshare(a[3], f, may, ret, a[1]):
                    continue
                if (f.file, f.name) in OWNED:
                    continue
                s = Stores(f)
                pth = locate(f.body, a, [])
                if not s.covered((a[1], obj, 'content', [a[3]] + [x for x in find(a[3], 'path')], pth)):
                    bad.append((f, a[1], 'content|%s' % f.full,
                                'the content of `%s` is replaced by one that can be a view into another string, and no '
                                'write barrier follows' % obj))
    return n, bad


def locate(n, what, pth):
    if n is what:
        return pth
    if not isinstance(n, list):
        return None
    if n and n[0] in ('block', 'unsafe') and len(n) > 2 and isinstance(n[2], list):
        for i, s in enumerate(n[2]):
            r = locate(s, what, pth + [(n[2], i)])
            if r is not None:
                return r
        return None
    for x in n:
        r = locate(x, what, pth)
        if r is not None:
            return r
    return None


def copies(body, may, ret):
    for m in find(body, 'mcall'):
        if m[3] == 'clone' and not m[4] and tail(text(m[2])) in ('self', 'inner', 'other', '?') or \
                m[3] in may and m[3] != 'clone' and m[3] in ret:
            return True
    return any(tail(path(c[2]) or '') in may and tail(path(c[2]) or '') != 'clone' for c in find(body, 'call'))


def mayshare(e, f, may, ret, line, seen=()):
    e = strip(e)
    if not isinstance(e, list) or not e:
        return True
    k = e[0]
    if k == 'call':
        return tail(path(e[2]) or '?') in may or tail(path(e[2]) or '?') not in ret
    if k == 'mcall':
        return e[3] in may or e[3] not in ret
    if k == 'struct':
        return any('Shared' in str(x[2]) for x in find(e, 'struct'))
    if k == 'if':
        return e[4] is None or mayshare(e[3], f, may, ret, line, seen) or mayshare(e[4], f, may, ret, line, seen)
    if k in ('block', 'unsafe'):
        return not e[2] or mayshare(e[2][-1], f, may, ret, line, seen)
    if k in ('semi', 'tail'):
        return mayshare(e[2], f, may, ret, line, seen)
    if k == 'match':
        return any(mayshare(a[4], f, may, ret, line, seen) for a in e[3])
    if k == 'path' and e[2] not in seen:
        defs = [l for l in find(f.body, 'local') if l[1] <= line and l[3] is not None and
                [p[2] for p in find(l[2], 'pident')] == [e[2]]]
        return not defs or mayshare(defs[-1][3], f, may, ret, defs[-1][1], seen + (e[2],))
    return True


def only(conds, allowed):
    """Are all guards among the allowed (text, polarity)?"""
    def parts(c, pol):
        c = strip(c)
        if isinstance(c, list) and c[0] == 'bin' and c[2] == '&&' and pol:
            return parts(c[3], pol) + parts(c[4], pol)
        if isinstance(c, list) and c[0] == 'un' and c[2] == '!':
            return parts(c[3], not pol)
        if isinstance(c, list) and c[0] == 'bin' and c[2] == '||' and not pol:
            return parts(c[3], pol) + parts(c[4], pol)
        if isinstance(c, list) and c[0] == 'mcall':
            return [(c[3], pol)]
        if isinstance(c, list) and c[0] == 'path':
            return [(tail(c[2]), pol)]
        if isinstance(c, list) and c[0] == 'let':
            return [('let', pol)]
        return [('?', pol)]
    for g in conds:
        if g[0] != 'if' or any(p not in allowed for p in parts(g[1], g[2])):
            return False
    return True


def definitions(t):
    n, bad = 0, []

    def need(f, callee, allowed, what):
        hits = []
        walk(f.body, [], lambda x, g, l: hits.append((x, g)) if x[0] == 'mcall' and x[3] == callee else None)
        if not any(only(g, allowed) for x, g in hits):
            bad.append((f, f.line, 'barrier|%s' % f.full, what))

    one = t.fn('write_barrier', 'value/rvalue.rs', 'RValue')
    bulk = t.fn('write_barrier_bulk', 'value/rvalue.rs', 'RValue')
    need(one, 'enter_remembered_set', {('is_wb_armed', True), ('is_packed_value', False)},
         'the barrier does not record every armed object into which a heap object is stored')
    need(bulk, 'enter_remembered_set', {('is_wb_armed', True)}, 'the barrier does not record every armed object')
    for nm in ('write_barrier', 'write_barrier_bulk'):
        need(t.fn(nm, 'value.rs', 'Value'), nm, {('let', True)}, 'the barrier of a value does not run that of its object')
    ers = t.fn('enter_remembered_set', 'value/rvalue.rs', 'RValue')
    need(ers, 'enter_remembered', set(), 'the object is not taken out of the armed state')
    need(ers, 'remember', set(), 'the object is not handed to the allocator')
    jw = t.fn('jit_write_barrier', 'codegen/jit_module.rs')
    need(jw, 'write_barrier_bulk', set(), 'the stub of compiled code does not record the object')
    n += 7

    # the kinds that can be old, and their reference test
    prom = t.fn('is_promotable', 'value/rvalue.rs', 'RValue')
    kinds = set()
    for m in choices(prom.body):
        for a in m[3]:
            if not (isinstance(strip(a[4]), list) and strip(a[4])[0] == 'lit' and str(strip(a[4])[2]) in ('False', 'false')):
                pats = [tail(p[2]) for p in find(a[2], 'ppath', 'path')]
                if not pats:
                    bad.append((prom, a[1], 'kinds|wildcard', 'kinds without a reviewed barrier become promotable'))
                kinds |= set(pats)
    for k in sorted(kinds - set(KINDS)):
        bad.append((prom, prom.line, 'kinds|%s' % k, 'objects of kind %s become old, but their stores have no barrier' % k))
    young = [f for f in t.by_name['young_child_exists'] if f.file == 'value/rvalue.rs' and f.owner == 'RValue'][0]
    arms = {}
    for m in choices(young.body):
        for a in m[3]:
            for p in [tail(p[2]) for p in find(a[2], 'ppath', 'path')] or ['_']:
                arms.setdefault(p, a)
    for k in sorted(kinds & set(KINDS)):
        n += 1
        a = arms.get(k, arms.get('_'))
        acc = KINDS[k]
        ok = a is not None
        if ok and acc:
            e = strip(a[4])
            lit = isinstance(e, list) and e[0] == 'lit'
            ok = (lit and str(e[2]).lower() == 'true') or any(
                x[3] in (acc, acc + '_inner') for x in find(a[4], 'mcall')) and \
                (any(x[3] == 'any' for x in find(a[4], 'mcall')) or any(x[3] in ('is_some_and', 'young_child_exists')
                                                                        for x in find(a[4], 'mcall'))) and \
                not any(x[2] == '!' for x in find(a[4], 'un')) and not list(find(a[4], 'if')) and \
                not any(x[3] in ('skip', 'take', 'step_by', 'all') for x in find(a[4], 'mcall'))
        if not ok:
            bad.append((young, a[1] if a else young.line, 'young|%s' % k,
                        'an old object of kind %s that refers to young objects is not recognised' % k))
    vt = []
    walk(young.body, [], lambda x, g, l: vt.append(g) if x[0] == 'return' else None)
    if not any(f[3] == 'var_table' for f in find(young.body, 'field')) or not vt:
        bad.append((young, young.line, 'young|var_table', 'the instance variables are not looked at'))
    n += 1
    # the recursion of hashes: both tables, the keys, the values and the default
    hy = [f for f in t.by_name['young_child_exists'] if f.file == 'value/rvalue/hash.rs']
    if not hy:
        raise framework.AnchorMissing('young_child_exists of hashes')
    for f in hy:
        n += 1
        seen = [text(c[3][0]) if text(c[3][0]) != '?' else 'p' for c in find(f.body, 'call')
                if tail(path(c[2]) or '') == 'is_young' and c[3]]
        if len(seen) < 4 or len(set(seen)) < 3 or any(x[3] in ('all', 'skip', 'take') for x in find(f.body, 'mcall')) or \
                any(x[2] == '&&' for x in find(f.body, 'bin')):
            bad.append((f, f.line, 'young|hash contents',
                        'keys, values, default value and default procedure of an old hash are not all looked at'))

    # the collector: an object with young children is kept, one without is armed
    for f in t.by_name.get('apply_aging', []) + t.by_name.get('reclassify_remembered', []) + t.by_name.get('mark_remembered', []):
        hit = 0
        for i in find(f.body, 'if'):
            c = strip(i[2])
            pol = True
            while isinstance(c, list) and c[0] == 'un' and c[2] == '!':
                pol, c = not pol, strip(c[3])
            if isinstance(c, list) and c[0] == 'mcall' and c[3] == 'young_child_exists':
                hit += 1
                n += 1
                yes, no = (i[3], i[4]) if pol else (i[4], i[3])
                keeps = yes is not None and any(x[3] in ('push', 'remember') for x in find(yes, 'mcall'))
                arms_ = no is not None and any(x[3] == 'arm_barrier' for x in find(no, 'mcall'))
                if not keeps or yes is not None and any(x[3] == 'arm_barrier' for x in find(yes, 'mcall')):
                    bad.append((f, i[1], 'collector|%s|kept' % f.name,
                                'an old object with young children does not stay in the remembered set'))
                if not arms_:
                    bad.append((f, i[1], 'collector|%s|armed' % f.name,
                                'an old object without young children is not armed again'))
        if not hit:
            bad.append((f, f.line, 'collector|%s|test' % f.name,
                        'whether the old object still refers to young objects is not tested'))
    return n, bad


def handles(t):
    """The wrapper of arrays hands out its payload through the barriered DerefMut; hashes have none at all."""
    n, bad = 0, []
    src = open(framework.REPO + '/monoruby_attr/src/lib.rs').read()
    want = {'array.rs': 'write_barrier'}
    for fl, arg in want.items():
        s = open('%s/monoruby/src/value/rvalue/%s' % (framework.REPO, fl)).read()
        m = re.search(r'#\[monoruby_object(\([^)]*\))?\]\s*(#\[[^\]]*\]\s*)*pub struct Array\(', s)
        n += 1
        if not m or arg not in (m.group(1) or ''):
            bad.append(('value/rvalue/' + fl, 1, 'handle|Array', 'the wrapper of arrays hands out its payload without a barrier'))
    hs = open('%s/monoruby/src/value/rvalue/hash.rs' % framework.REPO).read()
    n += 1
    if re.search(r'DerefMut for Hashmap\b', hs) or re.search(r'#\[monoruby_object\]\s*pub struct Hashmap\(', hs):
        bad.append(('value/rvalue/hash.rs', 1, 'handle|Hashmap', 'the wrapper of hashes hands out its payload without a barrier'))
    # in the macro, the branch for the barrier runs it before the payload is handed out
    n += 1
    m = re.search(r'if\s+barrier\s*\{(.*?)\}\s*else\s*\{', src, re.S)
    body = m.group(1) if m else ''
    wb, out = body.find('write_barrier_bulk'), body.find('#as_ref_mut')
    if m is None:
        m2 = 'write_barrier_bulk' in src
        if not m2:
            bad.append(('../../monoruby_attr/src/lib.rs', 1, 'macro|barrier', 'the generated handle runs no barrier'))
    elif wb < 0 or out < 0 or wb > out:
        bad.append(('../../monoruby_attr/src/lib.rs', 1, 'macro|barrier',
                    'the generated handle hands out the payload without running the barrier first'))
    return n, bad


def emitted(t):
    n, bad = 0, []
    for cpu in ('x86_64', 'aarch64'):
        files = [f for fs in t.by_name.values() for f in fs if f.body and f.file.startswith('codegen/arch/%s/compile/' % cpu)]
        by = {}
        for f in files:
            by.setdefault(f.name, []).append(f)

        def count(f, depth=0, seen=()):
            one = many = 0
            for m in find(f.body, 'mcall'):
                if m[3].startswith('emit_write_barrier_bulk'):
                    many += 1
                elif m[3].startswith('emit_write_barrier'):
                    one += 1
                elif depth < 3 and m[3] not in seen and text(m[2]) == 'self':
                    for g in by.get(m[3], []):
                        if g.file == f.file:
                            a, b = count(g, depth + 1, seen + (m[3],))
                            one, many = one + a, many + b
            return one, many

        for name, (one, many) in EMITTERS.items():
            fs = by.get(name) or by.get('emit_' + name) or []
            fs = [f for f in fs if f.file.startswith('codegen/arch/%s/compile/' % cpu)]
            if not fs:
                raise framework.AnchorMissing('emitter %s on %s' % (name, cpu))
            n += 1
            a, b = max((count(f) for f in fs))
            b = max(count(f)[1] for f in fs)
            if a < one or b < many:
                bad.append((fs[0], fs[0].line, 'emit|%s|%s' % (cpu, name),
                            'the code emitted for this store runs %d of %d write barriers' % (a + b, one + many)))
            for f in fs:
                hits = []
                walk(f.body, [], lambda x, g, l: hits.append((x, g)) if x[0] == 'mcall' and x[3].startswith('emit_write_barrier') else None)
                for x, g in hits:
                    if not only(g, {('wb', True)}):
                        bad.append((f, x[1], 'emit|%s|%s|condition' % (cpu, name), 'the write barrier is emitted only under a condition'))
        # the barrier instruction of the shared lowering
        enc = [f for f in by.get('encode_linst', [])]
        for f in enc:
            for a in [a for m in choices(f.body) for a in m[3]]:
                if any('WriteBarrier' in str(p[2]) for p in find(a[2], 'pstruct', 'ppath', 'pts')):
                    n += 1
                    if not any(m[3].startswith('emit_write_barrier') for m in find(a[4], 'mcall')):
                        bad.append((f, a[1], 'emit|%s|WriteBarrier' % cpu, 'the barrier instruction emits no barrier'))
        # the barrier itself
        for f in files:
            if f.name.startswith('emit_write_barrier'):
                n += 1
                asm = ' '.join(str(m[3]) for m in find(f.body, 'macro') if m[2].startswith('monoasm'))
                asm = re.sub(r'\s+', ' ', asm)
                bulk = 'bulk' in f.name
                if cpu == 'x86_64':
                    jumps = re.findall(r'\b(j[a-z]+) (\w+)', asm)
                    ok = re.search(r'RVALUE_OFFSET_FLAG.*?0x40 ; j(z|eq|e) skip', asm) and 'call wb' in asm
                    ok = ok and (bulk or re.search(r'testq R ?\(child as _\) , (0b111|7) ; j(nz|ne) skip', asm)) and \
                        len(jumps) == (1 if bulk else 2)
                else:
                    jumps = re.findall(r'\b(tbn?z|cbn?z|b\.\w+|b) ', asm)
                    ok = re.search(r'RVALUE_OFFSET_FLAG.*?tbz x9 , # ?\(6\) , skip', asm) and 'bl wb' in asm
                    ok = ok and (bulk or re.search(r'0b111.*?cbnz x9 , skip', asm)) and len(jumps) == (1 if bulk else 2)
                if not ok:
                    bad.append((f, f.line, 'emit|%s|%s' % (cpu, f.name),
                                'the emitted barrier is not: skip if not armed, skip if immediate, record'))
    # shared lowering of stores
    sh = [f for fs in t.by_name.values() for f in fs if f.body and f.file == 'codegen/jitgen/asmir/compile_shared.rs']
    seen = set()
    for f in sh:
        for a in [a for m in choices(f.body) for a in m[3]]:
            for p in find(a[2], 'pstruct', 'pts', 'ppath'):
                if str(p[2]).replace(' ', '').startswith('AsmInst::') and tail(str(p[2])) in SHARED_ARMS:
                    nm = tail(str(p[2]))
                    seen.add(nm)
                    n += 1
                    hits = []
                    walk(a[4], [], lambda x, g, l: hits.append((x, g)) if x[0] == 'struct' and tail(str(x[2])) == 'WriteBarrier' else None)
                    if not any(only(g, {('wb', True)}) for x, g in hits):
                        bad.append((f, a[1], 'emit|shared|%s' % nm, 'the store is lowered without a write barrier'))
                        continue
                    # parent is still the object: rdi is not repointed before the barrier
                    order = [(x[1], tail(str(x[2]))) for x in find(a[4], 'struct') if tail(str(x[2])) in ('WriteBarrier', 'Load')]
                    for x in find(a[4], 'struct'):
                        if tail(str(x[2])) == 'Load' and re.search(r'Rdi', str(fieldof(x, 'dst'))) and x[1] < hits[0][0][1]:
                            bad.append((f, x[1], 'emit|shared|%s|parent' % nm,
                                        'the register of the object is overwritten before the write barrier'))
    for nm in SHARED_ARMS:
        if nm not in seen:
            raise framework.AnchorMissing('lowering of %s' % nm)
    # the barrier may only be left out for values known to be immediate
    for f in [f for fs in t.by_name.values() for f in fs if f.body and f.file.startswith('codegen/jitgen/compile/')]:
        for l in find(f.body, 'local'):
            if [p[2] for p in find(l[2], 'pident')] == ['wb'] and l[3] is not None:
                e = strip(l[3])
                n += 1
                ok = isinstance(e, list) and (e[0] == 'un' and e[2] == '!' and strip(e[3])[0] == 'mcall' and
                                              strip(e[3])[3] == 'is_guarded_immediate' or
                                              e[0] == 'lit' and str(e[2]).lower() == 'true')
                if not ok:
                    bad.append((f, l[1], 'elide|%s' % f.full, 'the barrier is left out for values not known to be immediate'))
    return n, bad


def fieldof(x, name):
    for y in x[3:]:
        if isinstance(y, list):
            for z in y:
                if isinstance(z, list) and z and (z[0] == name or len(z) > 1 and z[1] == name):
                    return z
    return None


def c29(t):
    r, bad = {}, []
    for k, fn in (('stores', stores), ('string_contents', strings), ('definitions', definitions), ('handles', handles),
                  ('emitted', emitted)):
        r[k], b = fn(t)
        bad += b
    return r, bad
