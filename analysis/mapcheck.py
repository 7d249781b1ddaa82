"""Runs the map rules over every public operation and collects obligations and violations."""
import multiprocessing
import re
import time
from terms import *
from absint import Undecided
from rmap import *
import loops
import maprules
import mapspec
from mapspec import X


def outcome(st, keyterm):
    """Position the exit's facts say the key was found at (None: absent)."""
    for t, v in st.ord.facts.items():
        if v is not True or not isinstance(t, tuple):
            continue
        if keyterm == ('callback',):
            if t[0] == 'call' and t[1] == '<callback>':
                k = mapspec.strip_refs(t[2][1])
                if isinstance(k, tuple) and k[0] == 'fld' and k[2] == 'key' and k[1][0] == 'elem' and k[1][1] == E0:
                    return k[1][2]
            continue
        if t[0] == 'eqv' and keyterm in t[1:]:
            o = t[2] if t[1] == keyterm else t[1]
            if isinstance(o, tuple) and o[0] == 'fld' and o[2] == 'key' and o[1][0] == 'elem' and o[1][1] == E0:
                return o[1][2]
    return None


def refuted(o, keyterm):
    """Positions the facts of an ordering state exclude by equality."""
    out = []
    for t, v in o.facts.items():
        if v is not False or not isinstance(t, tuple):
            continue
        if keyterm == ('callback',) and t[0] == 'call' and t[1] == '<callback>':
            k = mapspec.strip_refs(t[2][1])
        elif t[0] == 'eqv' and keyterm in t[1:]:
            k = t[2] if t[1] == keyterm else t[1]
        else:
            continue
        if isinstance(k, tuple) and k[0] == 'fld' and k[2] == 'key' and k[1][0] == 'elem' and k[1][1] == E0:
            out.append(k[1][2])
    return out


def hash_differs(o, h):
    """Positions whose recorded hash is known to differ from h."""
    out = []
    for q in o.ne:
        c, d = lin(q)
        if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
            a, b = [norm_hash(t) for t in d]
            for x, y in ((a, b), (b, a)):
                if y == h and isinstance(x, tuple) and x[0] == 'fld' and x[2] == 'hash' and x[1][0] == 'elem' \
                        and x[1][1] == E0:
                    out.append(x[1][2])
    return out


class Report:
    def __init__(self):
        self.obl = []           # (rule, op, form, status)
        self.viol = []          # (rule, op, form, message, where)
        self.undecided = []
        self.fns = set()
        self.ops = 0
        self.exits = 0
        self.unmodelled = {}

    def bad(self, rule, op, form, msg, f):
        v = (rule, op, form, msg, '%s' % f['file'])
        if v not in self.viol:
            self.viol.append(v)


def opname(f):
    """Stable name of a public operation: type::method, or `type as Trait::method`."""
    p = f['path']
    if not p.startswith('<'):
        return strip_generics(p)
    body, meth = p[1:].rsplit('>::', 1)
    ty, _, tr = body.partition(' as ')
    ty = ty.lstrip('&').replace("'a ", '').replace("'_ ", '')
    mut = ty.startswith('mut ')
    ty = ty[4:] if mut else ty
    tr = re.sub(r'\b(?:\w+::)+', '', tr)
    return '%s as %s::%s' % (ty.split('<')[0], tr, meth)


def public_ops(prog, prefixes):
    for f in prog.fns.values():
        if '{closure' in f['fn'] or f.get('vis') != 'Public' or not f['fn'].startswith('rubymap::'):
            continue
        p = opname(f)
        if p.startswith(prefixes) and not p.endswith('::fmt'):
            yield p, f


PREFIXES = ('map::RubyMap', 'set::RubySet', 'map::core::', 'map::slice::Slice', 'set::slice::Slice')
HOLE_OPS = {'get', 'get_mut', 'get_full', 'get_index_of', 'contains_key', 'get_key_value', 'get_full_mut',
            'tombstone_remove', 'tombstone_index', 'compact_tombstones', 'get_prehashed', 'get_prehashed_with'}


def check_op(D, path, f, form, R, rules):
    I, st0, args, res = D.run(f, form)
    R.fns |= I.visited
    for k, v in I.unmodelled.items():
        R.unmodelled[k] = R.unmodelled.get(k, 0) + v
    name = path.rsplit('::', 1)[-1]
    is_set = path.startswith('set::')
    fields = ('key', 'hash') if is_set else ('key', 'value', 'hash')
    spec = mapspec.KEY.get(path)
    for s, ret in res:
        if s.ord.feasible() is False:
            continue
        R.exits += 1
        errs = [e for e in s.events if e['kind'] == 'user-err']
        loopish = 'invariant' in s.notes
        keyterm, h, sp = spec if spec else (None, None, mapspec.OPS.get(path))
        found = outcome(s, keyterm) if keyterm else None
        # ---- coherence
        if 'coherent' in rules:
            cores = []
            for root, v in s.mem.items():
                if root[0] == 'O':
                    cores += [(root, c) for c in core_in(v)]
            cores += [('ret', c) for c in core_in(ret)]
            for root, c in cores:
                hole = None
                if root == SELF:
                    if form == 'hole' and name != 'compact_tombstones':
                        hole = HOLE
                    if path.endswith('::tombstone_remove') and found is not None:
                        hole = found
                    elif path.endswith('::tombstone_index') and s.ord.proves(lt(('int', 2), N)):
                        hole = ('int', 2)
                    if form == 'hole' and name.startswith('tombstone'):
                        continue        # two dead entries: judged by C05's rule instead
                v = maprules.coherence(I, s, c, hole)
                R.obl.append(('coherent', path, form))
                for kind, msg in v:
                    R.bad('coherent', path, form, msg, f)
            for i in s.issues:
                if len(i) == 2 or s.ord.feasible() is True:
                    R.bad('coherent', path, form, i[1], f)
        # ---- errors from user code
        if errs and 'errors' in rules:
            R.obl.append(('errors', path, form))
            want = err(errs[-1]['ret'])
            if not (is_agg(ret) and ret[3] == 'Err' and ret[4][0][1] == errs[-1]['ret']):
                R.bad('errors', path, form, 'an error raised by user code while %sing a key is not returned to the caller'
                      % ('hash' if errs[-1]['name'] == 'hash' else 'compar'), f)
            elif not loopish and SELF in s.mem:
                for c in core_in(s.mem[SELF]):
                    d = maprules.seqs_differ(I, s, fget(c, 'entries')[1], mapspec.SAME, ('key', 'value', 'hash'))
                    if d:
                        R.bad('errors', path, form, 'entries change although user code failed: ' + d, f)
            continue
        if errs:
            continue
        if loopish:
            continue
        # ---- key matching
        if keyterm and 'match' in rules:
            R.obl.append(('match', path, form))
            for msg in match_rule(I, s, ret, keyterm, h, found, form):
                R.bad('match', path, form, msg, f)
        # ---- documented effect
        if sp is None or 'effect' not in rules:
            continue
        x = X(I, s, args, found, is_set, form)
        x.boolish = path in mapspec.BOOLISH
        alts = sp(x)
        R.obl.append(('effect', path, form))
        live = 0
        for alt in alts:
            s2 = s.copy()
            if not all(s2.ord.assume(c) for c in alt.guard):
                continue
            fz = s2.ord.feasible()
            if fz is False:
                continue
            live += 1
            if fz is None:
                continue
            if alt.segs is not None and SELF in s2.mem:
                v = s2.mem[SELF]
                es = fget(core_in(v)[0], 'entries') if core_in(v) else v
                if isinstance(es, tuple) and es and es[0] == 'seq':
                    d = maprules.seqs_differ(I, s2, es[1], alt.segs, fields)
                    if d:
                        R.bad('effect', path, form, d, f)
                        continue
            got = maprules.canon(I, s2, ret)
            m = maprules.mismatch(I, s2, alt.ret, got)
            if m:
                R.bad('effect', path, form, m, f)
        if not live and alts and s.ord.feasible() is True:
            R.bad('effect', path, form, 'completes normally where it must not', f)
    # ---- panics
    if 'panics' in rules:
        keyterm = spec[0] if spec else None
        for ps, what, pf, line in I.panics:
            if ps.ord.feasible() is False or 'invariant' in ps.notes:
                continue
            R.panics.append((path, form, what, pf['fn'], line))
            R.obl.append(('panics', path, form))
            x = X(I, ps, args, outcome(ps, keyterm) if keyterm else None, is_set, form)
            conds = mapspec.panics(x, path, name)
            if conds is None:
                continue
            s2 = ps.copy()
            if all(s2.ord.assume(neg(c)) for c in conds) and maprules.sure(s2):
                R.bad('panics', path, form, 'panics in %s although no documented panic condition holds'
                      % pf['path'].rsplit('::', 1)[-1], f)


def match_rule(I, s, ret, keyterm, h, found, form):
    out = []
    searches = [t for t in s.trace if t[0] == 'search' and t[2] == 'none']
    if found is not None:
        own = maprules.nh(I, s, ('elem', E0, found))
        good = s.ord.same(own, h)
        for t in s.trace:
            if t[0] == 'match' and s.ord.same(t[3], found) and s.ord.same(norm_hash(t[2]), h):
                good = True
        if not good and maprules.sure(s):
            out.append('an entry is matched without comparing its recorded hash with the hash of the key')
        if form == 'hole':
            s2 = s.copy()
            if s2.ord.assume(eq(found, HOLE)) and maprules.sure(s2):
                out.append('a deleted entry is matched')
        return out
    # absent: every entry was consulted
    if s.ord.proves(eq(N, 0)):
        return out
    if any(t[0] == 'bsearch' and t[1] == 'ok' for t in s.trace):
        return out
    for t in searches:
        if s.ord.same(norm_hash(t[1]), h):
            parts = [(0, HOLE), (add(HOLE, 1), N)] if form == 'hole' else [(0, N)]
            if any(loops.uncovered(I, s, t[3], lo, hi) for lo, hi in parts):
                continue        # the index does not hold every entry
            return out
    if any(not s.ord.same(norm_hash(t[1]), h) for t in searches) and maprules.sure(s):
        return ['the index is searched under a hash other than the key\'s']
    # scans
    for t in s.trace:
        if t[0] != 'scan':
            continue
        _, k, n, conts, _ = t
        if not s.ord.proves(eq(n, N)):
            continue
        if conts and all(covers(o, k, keyterm, h) for o, _ in conts):
            return out
    # positions excluded one by one
    ex = refuted(s.ord, keyterm) + hash_differs(s.ord, h)
    x = I.fresh('x')
    s2 = s.copy()
    okk = s2.ord.assume(lt(x, N))
    for i in ex:
        okk = okk and s2.ord.assume(neg(eq(x, i)))
    if okk and maprules.sure(s2):
        out.append('a key is reported absent without consulting every entry')
    return out


def covers(o, k, keyterm, h):
    ps = refuted(o, keyterm) + hash_differs(o, h)
    for p in ps:
        c, d = lin(p)
        if d.get(k) == 1 and c == 0 and len(d) == 1:
            return True
        if d.get(k) == -1:
            return True
    return False


def tasks(prog, only=None):
    D = Driver(prog)
    out = []
    for path, f in public_ops(prog, PREFIXES):
        if only and not path.startswith(only):
            continue
        forms = D.forms(f)
        if path.startswith('map::RubyMap::') and path.rsplit('::', 1)[-1] in HOLE_OPS:
            forms = forms + ['hole']
        out += [(path, f['fn'], form) for form in forms]
    return out


def one(prog, task, rules):
    path, fn, form = task
    R = Report()
    R.panics = []
    R.ops = 1
    try:
        check_op(Driver(prog), path, prog.fns[fn], form, R, rules)
    except Undecided as e:
        R.undecided.append((path, form, str(e)))
    return R


COPIES = {'hash': {'coherent', 'match', 'effect'}, 'key': {'coherent', 'match', 'effect'}, 'value': {'effect'}}


def entry_copies(prog, R, rules):
    """Cloning a vector of entries clones its elements: the copy of an entry has the hash, key and value of the original."""
    for f in prog.fns.values():
        if f['path'] not in ('<Bucket<K, V> as std::clone::Clone>::clone', '<Bucket<K, V> as std::clone::Clone>::clone_from'):
            continue
        I, st = Driver(prog).interp(), State()
        for r in ('a', 'b'):
            st.mem[('O', r)] = agg('Bucket', 0, 'Bucket', [(k, ('in', r + '.' + k)) for k in COPIES])
        refs = [('ref', ('O', 'a'), ()), ('ref', ('O', 'b'), ())]
        into = f['path'].endswith('_from')
        try:
            for s, v in I.call_fn(st, f, refs if into else refs[1:], 0):
                got = s.mem[('O', 'a')] if into else v
                R.obl.append(('copy', opname(f), 'entry'))
                for k, rs in COPIES.items():
                    if rules & rs and fget(got, k) != ('in', 'b.' + k):
                        R.bad('effect', opname(f), 'entry', 'the copy of an entry does not have the %s of the original' % k, f)
        except Undecided as e:
            R.undecided.append((opname(f), 'entry', str(e)))


_G = {}


def _work(task):
    return one(_G['prog'], task, _G['rules'])


def run(prog, rules, only=None, jobs=8, want=None):
    ts = tasks(prog, only)
    seen = {t[0] for t in ts}
    ts = [t for t in ts if want is None or want(t)]
    _G.update(prog=prog, rules=rules)
    R = Report()
    R.panics = []
    R.seen = seen
    entry_copies(prog, R, rules)
    with multiprocessing.get_context('fork').Pool(jobs) as pool:
        for r in pool.imap(_work, ts, chunksize=1):
            R.obl += r.obl
            R.viol += [v for v in r.viol if v not in R.viol]
            R.undecided += r.undecided
            R.panics += r.panics
            R.fns |= r.fns
            R.ops += r.ops
            R.exits += r.exits
            for k, v in r.unmodelled.items():
                R.unmodelled[k] = R.unmodelled.get(k, 0) + v
    return R
