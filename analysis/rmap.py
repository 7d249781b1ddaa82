"""Abstract inputs for the ordered map / set and a driver over its public operations."""
from terms import *
from absint import Interp, State, Undecided, V, pc
from mir import Program, strip_generics
import models
import loops

CORE = 'map::core::IndexMapCore'
ENTRY = 'map::core::entry::'
E0 = ('E',)
N = ('len', E0)
SELF = ('O', 'self')
IDX = ('int', 'entry.index')
HOLE = ('int', 'hole')


def norm_hash(h):
    while isinstance(h, tuple) and h:
        if h[0] == 'fld' and h[2] == '0':
            h = h[1]
        elif h[0] == 'cast':
            h = h[2]
        elif h[0] == 'agg' and h[1].endswith('HashValue'):
            h = h[4][0][1]
        else:
            break
    return h


models.norm_hash = norm_hash


def hash_of(base, i):
    return ('fld', ('elem', base, i), 'hash')


def core_value(base, form):
    n = ('len', base)
    if form == 'linear':
        ps = ()
    elif form == 'hole':
        ps = (pc(base, 0, HOLE, V, hash_of(base, V)), pc(base, add(HOLE, 1), n, V, hash_of(base, V)))
    else:
        ps = (pc(base, 0, n, V, hash_of(base, V)),)
    return agg(CORE, 0, 'IndexMapCore', [
        ('indices', ('tab', ('table', base), ps)), ('linear', TRUE if form == 'linear' else FALSE),
        ('entries', ('seq', (('sub', base, 0, n),)))])


def adt_of(ty):
    return ty.split('<')[0]


def core_in(v, depth=0):
    """All map cores inside a value."""
    if is_agg(v, CORE):
        return [v]
    out = []
    if is_agg(v) and depth < 8:
        for _, x in v[4]:
            out += core_in(x, depth + 1)
    return out


class Driver:
    """Runs one function over every abstract input form."""

    def __init__(self, prog, budget=100000):
        self.prog = prog
        self.budget = budget

    def build(self, ty_s, base, form):
        """Value of an owned container type, or None."""
        a = adt_of(ty_s)
        if a == CORE:
            return core_value(base, form)
        if a == 'map::RubyMap':
            return agg(a, 0, 'RubyMap', [('core', core_value(base, form)), ('hash_builder', ('hb', base))])
        if a == 'set::RubySet':
            return agg(a, 0, 'RubySet', [('map', self.build('map::RubyMap', base, form))])
        if a in ('map::slice::Slice', 'set::slice::Slice'):
            return ('seq', (('sub', base, 0, ('len', base)),))
        return None

    def entry_value(self, st, a, form):
        """Entry-API receiver over an indexed map held in SELF."""
        core = ('ref', SELF, ())
        ind, ent = ('ref', SELF, (('f', 'indices'),)), ('ref', SELF, (('f', 'entries'),))
        refmut = agg('map::core::RefMut', 0, 'RefMut', [('indices', ind), ('entries', ent)])
        name = a[len(ENTRY):]
        if name == 'Entry':
            if form == 'occupied':
                return agg(a, 0, 'Occupied', [('0', self.entry_value(st, ENTRY + 'OccupiedEntry', form))])
            return agg(a, 1, 'Vacant', [('0', self.entry_value(st, ENTRY + 'VacantEntry', form))])
        if SELF not in st.mem:
            st.mem[SELF] = core_value(E0, 'indexed')
        if name == 'OccupiedEntry':
            st.ord.assume(lt(IDX, N))
            return agg(a, 0, name, [('entries', ent), ('index', models.occ(ind, IDX))])
        if name == 'VacantEntry':
            return agg(a, 0, name, [('map', refmut), ('hash', ('in', 'entry.hash')), ('key', ('in', 'entry.key'))])
        if name == 'IndexedEntry':
            st.ord.assume(lt(IDX, N))
            return agg(a, 0, name, [('map', refmut), ('index', IDX)])
        return None

    def receiver(self, f):
        """(ADT of the first container-like parameter, by reference?)"""
        for i in range(1, f['argc'] + 1):
            t = f['crate'].ty(f['locals'][i][0])
            inner = f['crate'].ty(t['t']) if t['k'] == 'ref' else t
            a = adt_of(inner['s'])
            if a.startswith(ENTRY) or a in (CORE, 'map::RubyMap', 'set::RubySet', 'map::slice::Slice',
                                            'set::slice::Slice'):
                return a
        return None

    def forms(self, f):
        a = self.receiver(f)
        if a is None:
            return ['none']
        if a == ENTRY + 'Entry':
            return ['occupied', 'vacant']
        if a.startswith(ENTRY):
            return ['entry']
        if a.endswith('Slice'):
            return ['slice']
        return ['linear', 'indexed']

    def inputs(self, f, form):
        st = State()
        args = []
        nobj = 0
        for i in range(1, f['argc'] + 1):
            t = f['crate'].ty(f['locals'][i][0])
            nm = i
            inner = f['crate'].ty(t['t']) if t['k'] == 'ref' else t
            a = adt_of(inner['s'])
            base = E0 if nobj == 0 else ('E', nm)
            if a.startswith(ENTRY) and nobj == 0:
                nobj += 1
                v = self.entry_value(st, a, form)
                root = ('O', 'recv')
            else:
                v = self.build(inner['s'], base, form)
                if v is not None:
                    nobj += 1
                    root = ('O', nm if nobj > 1 else 'self')
                else:
                    v, root = ('in', nm), ('O', nm)
            if t['k'] == 'ref':
                st.mem[root] = v
                args.append(('ref', root, ()))
            else:
                if inner['s'] == 'usize':
                    v = ('int', nm)
                args.append(v)
        if form == 'hole':
            st.ord.assume(lt(HOLE, N))
        return st, args

    def interp(self):
        I = Interp(self.prog, {**models.M, **models.TABLE}, budget=self.budget)
        I.loop_invariant = loop_invariant
        I.coherence = None
        return I

    def run(self, f, form):
        I = self.interp()
        st, args = self.inputs(f, form)
        res = I.call_fn(st, f, args, 0)
        return I, st, args, res


def containers(v, path=()):
    """Paths of the map cores inside a value."""
    if is_agg(v, CORE):
        return [path]
    out = []
    if is_agg(v) and len(path) < 8:
        for n, x in v[4]:
            out += containers(x, path + (('f', n),))
    return out


def loop_invariant(I, st, fr, header, body):
    """A loop that changes a whole map: assume an arbitrary coherent map at the
    loop head (both forms), run one iteration, require coherence at the back edge."""
    import maprules
    roots = [r for r, v in st.mem.items() if r[0] in ('O', 'L') and containers(v)]
    outs = []
    ok_form = False
    for form in ('linear', 'indexed'):
        s = st.copy()
        s.ord, s.variants = Order(), {}
        s.notes.append('invariant')
        for r in roots:
            for p in containers(s.mem[r]):
                I.uid += 1
                b = ('E', 'inv', I.uid)
                v = I.read(s, r, p)
                if v == core_value(b, form):
                    continue
                I.write(s, r, p, core_value(b, form))
        for r, v in list(s.mem.items()):
            if r[0] == 'L' and r[1] == fr.id and isinstance(v, tuple) and v and v[0] in ('it', 'itk') \
                    and loops.drives(fr.fn, body, r[2]):
                k = I.fresh('k')
                s.mem[r] = ('itk', v if v[0] == 'it' else v[1], k)
            elif r[0] == 'L' and r[1] == fr.id and assigned_in(fr.fn, body, r[2]) and not containers(v):
                if isinstance(v, tuple) and v and v[0] in ('ref',):
                    continue
                s.mem.pop(r)
        rets, exits, conts = I.run(s, fr, header, body, header)
        for c in conts:
            if loops.forgotten_errors(s, s, [c]):
                c2 = c.copy()
                c2.mem[('L', fr.id, 0)] = ('loop-back',)
                outs.append((c2, 'return'))
            for r in roots:
                if r not in c.mem:
                    continue
                for core in core_in(c.mem[r]):
                    for msg in maprules.coherence(I, c, core):
                        c.issues.append(msg)
            if c.issues:
                # carry the broken back edge to an exit so that it is reported
                outs.append((c, 'return'))
                c.mem[('L', fr.id, 0)] = ('loop-back',)
        for x, b in exits + [(r, 'return') for r in rets]:
            outs.append((x, b))
    return outs


def assigned_in(fn, body, local):
    for b in body:
        for s in fn['blocks'][b]['s']:
            if s[0] == '=' and s[1][0] == local and not s[1][1]:
                return True
        t = fn['blocks'][b]['t']
        if t[0] == 'call' and t[3][0] == local:
            return True
    return False
