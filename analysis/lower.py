"""C25: every instruction of the optimizing compiler is lowered by both back ends."""
import syntree
from framework import AnchorMissing
from syntree import choices, find, path, tail

PANIC = ('unreachable', 'todo', 'unimplemented', 'panic')


def pname(p):
    return tail(p[2].replace(' ', '')) if p[0] in ('pts', 'pstruct', 'ppath', 'path') and isinstance(p[2], str) else None


def irrefutable(p):
    k = p[0]
    if k in ('pwild', 'prest'):
        return True
    if k == 'pident':
        return p[3] is None or irrefutable(p[3])
    if k == 'ptuple':
        return all(irrefutable(q) for q in p[2])
    if k in ('pts', 'pstruct'):
        return False
    if k == 'pother':
        return True
    return False


def covers(p, variant):
    """'all', 'some' or None: how much of the variant the pattern takes."""
    k = p[0]
    if k == 'por':
        r = [covers(q, variant) for q in p[2]]
        return 'all' if 'all' in r else 'some' if 'some' in r else None
    if k == 'pident':
        if p[2][:1].isupper():
            return 'all' if p[2] == variant else None
        return 'all' if p[3] is None else covers(p[3], variant)
    if k == 'pwild':
        return 'all'
    if k in ('pref',):
        return covers(p[-1], variant)
    if k in ('ppath', 'path'):
        return 'all' if pname(p) == variant else None
    if k in ('pts', 'pstruct'):
        if pname(p) != variant:
            return None
        subs = p[3] if k == 'pts' else [q[1] for q in p[3]]
        return 'all' if all(irrefutable(q) for q in subs) else 'some'
    return None


def body_kind(b):
    """'panic', 'nothing' or 'code'."""
    while b[0] in ('block', 'unsafe') and len(b[2]) == 1:
        b = b[2][0][2]
    if b[0] in ('block', 'unsafe') and not b[2]:
        return 'nothing', b
    if b[0] == 'tuple' and not b[2]:
        return 'nothing', b
    if b[0] == 'macro' and tail(b[2].replace(' ', '')) in PANIC:
        return 'panic', b
    return 'code', b


class Lower:
    def outcome(self, f, variant, param, follow):
        """Set of (kind, function, line) the variant may end in."""
        ms = [m for m in choices(f.body) if path(m[2]) == param]
        if not ms:
            raise AnchorMissing('no dispatch on %s in %s' % (param, f.full))
        out = set()
        for arm in ms[0][3]:
            c = covers(arm[2], variant)
            if c is None:
                continue
            kind, b = body_kind(arm[4])
            to = follow(arm[4])
            if to:
                for g, p2 in to:
                    out |= self.outcome(g, variant, p2, follow)
            else:
                out.add((kind, f, arm[1]))
            if c == 'all' and arm[3] is None:
                return out
        return out


ARCHES = ('x86_64', 'aarch64')
# Instructions that one back end does not know because they are only made for the other.
ONLY = {'DeoptTrampoline': ('x86_64', ('deopt_label',))}
# Kinds a selection inside an arm need not know, because the front end turns them into calls: the same on both.
INNER = {('FloatBinOp', 'kind'): {'Add', 'Sub', 'Mul', 'Div'}, ('FloatUnOp', 'kind'): {'Neg', 'Pos'},
         ('Alu', 'op'): {'Add', 'Sub'}}


def one(t, name, arch):
    c = [x for x in t.by_name.get(name, ()) if '/%s/' % arch in x.file or ('/arch/' not in x.file and 'codegen' in x.file)]
    if len(c) != 1:
        raise AnchorMissing('%s for %s: %d definitions' % (name, arch, len(c)))
    return c[0]


def drv_of(t, arch):
    c = [x for x in t.by_name.get('gen_asm', ()) if ('/aarch64/' in x.file) == (arch == 'aarch64')]
    if len(c) != 1:
        raise AnchorMissing('the driver gen_asm for %s' % arch)
    return c[0]


def inst_param(f, enum):
    p = [p[0] for p in f.params if p[1].replace(' ', '') == enum]
    if len(p) != 1:
        raise AnchorMissing('%s takes no %s' % (f.full, enum))
    return p[0]


def emits(n):
    """Does the code hand anything to the assembler (a macro of it, or a call on the generator)?"""
    for m in find(n, 'macro'):
        if tail(m[2].replace(' ', '')).startswith('monoasm'):
            return True
    for m in find(n, 'mcall'):
        r = m[2]
        while r[0] in ('field', 'mcall', 'index'):
            r = r[2]
        if path(r) == 'self':
            return True
    return False


def shape(p, fields):
    """The variants a pattern admits for the given fields: {field: set of variant names}; missing = any."""
    out = {}
    for name, q in fields:
        if irrefutable(q) or (q[0] == 'pident' and not q[2][:1].isupper()):
            continue
        alts = q[2] if q[0] == 'por' else [q]
        names = {pname(a) or (a[2] if a[0] == 'pident' else None) for a in alts}
        for a in alts:
            subs = a[3] if a[0] == 'pts' else [s[1] for s in a[3]] if a[0] == 'pstruct' else []
            if not all(irrefutable(s) for s in subs):
                names.add(None)
        if None in names:
            return None
        out[name] = names
    return out


def shapes(f, variant, param):
    """Shapes of the variant the function lowers: list of (shape, equalities required)."""
    ms = [m for m in choices(f.body) if path(m[2]) == param]
    r = []
    for arm in ms[0][3]:
        alts = arm[2][2] if arm[2][0] == 'por' else [arm[2]]
        if body_kind(arm[4])[0] == 'panic':
            continue
        for a in alts:
            if a[0] == 'pstruct' and pname(a) == variant:
                s = shape(a, a[3])
                if s is None:
                    continue
                eq = None
                if arm[3] is not None:
                    g = arm[3]
                    if g[0] == 'bin' and g[2] == '==' and path(g[3]) and path(g[4]):
                        eq = (path(g[3]), path(g[4]))
                    else:
                        continue
                r.append((s, eq))
    return r


def text(n):
    if isinstance(n, list):
        return [text(x) for i, x in enumerate(n) if i != 1]
    return n


def inner_sets(t, arch, f, arm, variant, field, depth=0):
    """Kinds of the field a selection in the arm knows (None: it is not selected on, or all are known)."""
    for m in choices(arm):
        heads = m[2][2] if m[2][0] == 'tuple' else [m[2]]
        at = [i for i, h in enumerate(heads) if path(h) == field]
        if not at:
            continue
        known, rest = set(), False
        for a in m[3]:
            pats = a[2][2] if a[2][0] == 'por' else [a[2]]
            for p in pats:
                q = p[2][at[0]] if p[0] == 'ptuple' else p
                for x in (q[2] if q[0] == 'por' else [q]):
                    n = pname(x) or (x[2] if x[0] == 'pident' and x[2][:1].isupper() else None)
                    if body_kind(a[4])[0] == 'panic':
                        continue
                    if n is None:
                        rest = True
                    else:
                        known.add(n)
        return None if rest else known
    if depth < 2:
        for m in find(arm, 'mcall'):
            if path(m[2]) != 'self':
                continue
            at = [i for i, a in enumerate(m[4]) if path(a) == field]
            if not at:
                continue
            for g in t.by_name.get(m[3], ()):
                if '/%s/' % arch in g.file:
                    ps = [p for p in g.params if p[0] != 'self']
                    if at[0] < len(ps):
                        r = inner_sets(t, arch, g, g.body, variant, ps[at[0]][0], depth + 1)
                        if r is not None:
                            return r
    return None


def run(t):
    bad = []
    facts = {'arms': 0, 'obligations': 0, 'sites': 0}
    drv = drv_of(t, 'x86_64')
    # The driver: every instruction left in the buffer is handed to a function that lowers it.
    routed = {}
    loops = [m for m in choices(drv.body) if any(a[2][0] in ('pts', 'pstruct', 'ppath')
             and a[2][2].replace(' ', '').startswith('LInst::') for a in m[3])]
    if len(loops) != 1:
        raise AnchorMissing('the loop that drains the instruction buffer in %s' % drv.full)
    scr = path(loops[0][2])
    for a in loops[0][3]:
        v = pname(a[2])
        calls = [m for m in find(a[4], 'mcall') if path(m[2]) == 'self' and any(path(x) for x in m[4])]
        bound = [q[0] for q in a[2][3]] if a[2][0] == 'pstruct' else []
        used = [m for m in calls if any(path(x) in [scr] + bound for x in m[4])]
        if not used:
            bad.append((drv, a[1], 'driver|%s' % (v or '_'), 'the driver drops %s' % (v or 'an instruction')))
        elif v:
            routed[v] = used[0][3]
        elif used[0][3] != 'encode_linst':
            bad.append((drv, a[1], 'driver|rest', 'the remaining instructions are not handed to the encoder'))
    if set(routed) != {'Inline', 'SourcePos', 'DeferredArch'} and not bad:
        raise AnchorMissing('instructions routed by the driver: %s' % sorted(routed))
    linst, asminst = t.enum('LInst'), t.enum('AsmInst')
    lv, av = [v[0] for v in linst[4]], [v[0] for v in asminst[4]]
    # Who makes which instruction.
    made = {}
    for f in t.fns:
        if 'codegen' not in f.file and 'builtins' not in f.file:
            continue
        for s in find(f.body, 'struct'):
            n = s[2].replace(' ', '')
            if n.startswith('LInst::'):
                made.setdefault(tail(n), []).append((f, s[1], dict((k, e) for k, e in s[3])))
        for c in find(f.body, 'path'):
            n = path(c)
            if n and n.startswith('LInst::'):
                made.setdefault(tail(n), []).append((f, c[1], None))
    # The recording builder of the instruction list is only pushed to, and what it holds is handed to the encoder.
    builder = 'codegen/jitgen/lir.rs'
    for f in t.fns:
        if f.file == builder:
            continue
        for l in find(f.body, 'local'):
            if not (l[3] and l[3][0] == 'call' and path(l[3][2]) in ('Lir::new', 'lir::Lir::new')):
                continue
            facts['obligations'] += 1
            var = l[2][2]
            used = [m for m in find(f.body, 'mcall') if path(m[2]) == var]
            drained = [x for x in find(f.body, 'for') if any(m in used and m[3] in ('into_insts', 'iter')
                       for m in find(x[3], 'mcall')) and any(m[3] == 'encode_linst' and path(m[4][0]) == x[2][2]
                                                             for m in find(x[4], 'mcall'))]
            if not drained:
                bad.append((f, l[1], 'builder|%s|drain' % f.file, 'the recorded instructions are not all lowered'))
            for m in used:
                if m[3] not in ('push', 'into_insts', 'iter', 'len', 'is_empty'):
                    bad.append((f, m[1], 'builder|%s|%s' % (f.file, m[3]), 'an instruction is recorded without its shape'))
    # What the driver routes elsewhere is only made for the function that takes it, or put into the buffer.
    for v, to in sorted(routed.items()):
        for f, line, _ in made.get(v, ()):
            if f.file == builder or f in (drv,) or '/arch/' in f.file:
                continue
            facts['obligations'] += 1
            ok = any(m[3] in (to, 'push') and any(v == tail(x[2].replace(' ', '')) for y in m[4] for x in find(y, 'struct', 'path')
                     if isinstance(x[2], str)) for m in find(f.body, 'mcall'))
            if not ok and not any(pname(p) == v for p in find(f.body, 'pts', 'pstruct')):
                bad.append((f, line, 'routed|%s|%s' % (v, f.name), '%s is made here for a function that does not lower it' % v))
    # Every kind of side exit gets a handler on both.
    kinds = [v[0] for v in t.enum('SideExit')[4]]
    for arch in ARCHES:
        g = drv_of(t, arch)
        ms = [m for m in choices(g.body) if any(covers(a[2], k) == 'all' for a in m[3] for k in kinds
              if a[2][0] == 'pts')]
        if len(ms) != 1:
            raise AnchorMissing('the selection on side exits in %s' % g.full)
        for k in kinds:
            facts['obligations'] += 1
            live = [a for a in ms[0][3] if a[2][0] != 'pwild' and covers(a[2], k) and body_kind(a[4])[0] == 'code']
            if not any(any(m[3] == 'push' for m in find(a[4], 'mcall')) for a in live):
                bad.append((g, ms[0][1], '%s|SideExit|%s' % (arch, k), 'no handler for side exit %s on %s' % (k, arch)))
    for arch in ARCHES:
        enc, mac = one(t, 'encode_linst', arch), one(t, 'encode_linst_macro', arch)
        asm, asma = one(t, 'compile_asmir', arch), one(t, 'compile_asmir_arch', arch)

        def follow(body):
            r = []
            for m in find(body, 'mcall'):
                if path(m[2]) == 'self' and m[3] in (mac.name, asma.name):
                    g = mac if m[3] == mac.name else asma
                    r.append((g, inst_param(g, 'LInst' if g is mac else 'AsmInst')))
            return r
        for names, f, enum in ((av, asm, 'AsmInst'), (lv, enc, 'LInst')):
            lw = Lower()
            par = inst_param(f, enum)
            for v in names:
                facts['obligations'] += 1
                o = lw.outcome(f, v, par, follow)
                facts['arms'] += len(o)
                if not o:
                    bad.append((f, f.line, '%s|%s|%s|missing' % (arch, enum, v), '%s::%s has no arm on %s' % (enum, v, arch)))
                for kind, g, line in sorted(o, key=lambda x: x[2]):
                    if kind == 'nothing':
                        bad.append((g, line, '%s|%s|%s|skipped' % (arch, enum, v),
                                    '%s::%s is skipped on %s' % (enum, v, arch)))
                    elif kind == 'panic':
                        if enum == 'LInst' and v in routed:
                            continue
                        if enum == 'LInst' and v in ONLY and arch != ONLY[v][0]:
                            for mf, ml, _ in made.get(v, ()):
                                if mf.name not in ONLY[v][1] and '/%s/' % ONLY[v][0] not in mf.file:
                                    bad.append((mf, ml, '%s|%s|only' % (arch, v), '%s is made here, but %s does not '
                                                'lower it' % (v, arch)))
                            continue
                        if enum == 'LInst':
                            # Only some shapes are lowered: each place that makes the instruction must make one of them.
                            sh = [(s, e) for g2 in (enc, mac) for s, e in shapes(g2, v, inst_param(g2, 'LInst'))]
                            here = [x for x in made.get(v, ()) if x[0].file != builder and '/arch/%s/' % (
                                'aarch64' if arch == 'x86_64' else 'x86_64') not in x[0].file and x[2] is not None
                                or x[2] is None and x[0].file != builder]
                            for mf, ml, d in here:
                                facts['sites'] += 1
                                if not any(fits(d, s, e) for s, e in sh):
                                    bad.append((mf, ml, '%s|%s|%s|shape' % (arch, v, mf.name),
                                                'a shape of %s is made here that %s does not lower' % (v, arch)))
                            continue
                        bad.append((g, line, '%s|%s|%s|panic' % (arch, enum, v),
                                    '%s::%s ends in a panic on %s' % (enum, v, arch)))
        # What an arm emits, and the selections inside it.
        for f in (enc, mac, asma):
            par = inst_param(f, 'AsmInst' if f is asma else 'LInst')
            m = [m for m in choices(f.body) if path(m[2]) == par][0]
            for a in m[3]:
                if body_kind(a[4])[0] != 'code':
                    continue
                vs = [pname(p) for p in (a[2][2] if a[2][0] == 'por' else [a[2]])]
                if not emits(a[4]):
                    bad.append((f, a[1], '%s|%s|silent' % (arch, '/'.join(x or '_' for x in vs)),
                                '%s emits nothing on %s' % (', '.join(x or '_' for x in vs), arch)))
                for v in vs:
                    for (iv, field), want in INNER.items():
                        if iv == v:
                            facts['obligations'] += 1
                            got = inner_sets(t, arch, f, a[4], v, field)
                            if got is not None and not want <= got:
                                bad.append((f, a[1], '%s|%s|inner' % (arch, v), '%s knows only the kinds %s on %s'
                                            % (v, sorted(got), arch)))
                    for p in find(a[4], 'macro'):
                        if tail(p[2].replace(' ', '')) in PANIC and v and not any(iv == v for iv, _ in INNER):
                            bad.append((f, p[1], '%s|%s|innerpanic' % (arch, v), '%s can end in a panic on %s' % (v, arch)))
    facts['asm'], facts['lir'] = len(av), len(lv)
    return facts, bad


def fits(d, s, eq):
    if d is None:
        return False
    for k, names in s.items():
        e = d.get(k)
        if e is None:
            return False
        n = path(e[2]) if e[0] == 'call' else e[2].replace(' ', '') if e[0] in ('struct', 'path') else None
        if n is None or tail(n) not in names:
            return False
    if eq and text(d.get(eq[0])) != text(d.get(eq[1])):
        return False
    return True
