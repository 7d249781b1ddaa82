"""Loading and pretty-printing of the MIR dump."""
import json, os, re

_GEN = re.compile(r'::<')


def strip_generics(p):
    """`std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`."""
    out, depth, i = [], 0, 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d, j = 1, i + 3
            while j < len(p) and d:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


class Crate:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.name = j['crate']
        self.fns = {f['fn']: f for f in j['fns']}
        self.tys = j['tys']
        self.adts = {a['path']: a for a in j['adts']}
        self.impls = j['impls']
        for f in self.fns.values():
            f['crate'] = self

    def ty(self, i):
        return self.tys[i]


class Program:
    def __init__(self, d, names):
        self.crates = {}
        self.fns = {}
        for n in names:
            c = Crate(os.path.join(d, n + '.json'))
            self.crates[n] = c
            self.fns.update(c.fns)
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(strip_generics(f['path']), []).append(f)

    def find(self, pat):
        r = re.compile(pat)
        return [f for f in self.fns.values() if r.search(strip_generics(f['path']))]


def fmt_place(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == '*':
            s = '(*%s)' % s
        elif e[0] == 'f':
            s += '.' + e[2]
        elif e[0] == 'i':
            s += '[_%d]' % e[1]
        elif e[0] == 'd':
            s += ' as ' + e[2]
            s = '(%s)' % s
        else:
            s += str(e)
    return s


def fmt_op(o):
    if o[0] in ('copy', 'move'):
        return ('' if o[0] == 'copy' else 'move ') + fmt_place(o[1])
    if o[0] == 'const':
        c = o[1]
        if 'callee' in c:
            return strip_generics(c['callee'].get('rpath') or c['callee']['path']) + (
                '' if 'rpath' in c['callee'] or 'trait' not in c['callee'] else ' [trait]')
        return 'const ' + str(c.get('v', c.get('s'))) + ('{%s}' % c['cpath'] if 'cpath' in c else '')
    return str(o)


def fmt_rv(r):
    if r[0] == 'use':
        return fmt_op(r[1])
    if r[0] in ('ref', 'rawptr'):
        return '&%s %s' % (r[1], fmt_place(r[2]))
    if r[0] == 'cast':
        return 'cast(%s, %s)' % (r[1], fmt_op(r[2]))
    if r[0] == 'bin':
        return '%s(%s, %s)' % (r[1], fmt_op(r[2]), fmt_op(r[3]))
    if r[0] == 'un':
        return '%s(%s)' % (r[1], fmt_op(r[2]))
    if r[0] == 'discr':
        return 'discr(%s)' % fmt_place(r[1])
    if r[0] == 'agg':
        return 'agg%s(%s)' % (r[1][:4], ', '.join(map(fmt_op, r[2])))
    return str(r)


def fmt_fn(f):
    c = f['crate']
    out = ['fn %s  [%s:%d] %s' % (f['path'], f['file'], f['line'], f['fn'])]
    for i, l in enumerate(f['locals']):
        out.append('  let _%d: %s  %s' % (i, c.ty(l[0])['s'], l[1] or ''))
    for i, b in enumerate(f['blocks']):
        out.append(' bb%d%s:' % (i, ' (cleanup)' if b['cleanup'] else ''))
        for s in b['s']:
            if s[0] == '=':
                out.append('   %s = %s' % (fmt_place(s[1]), fmt_rv(s[2])))
            else:
                out.append('   ' + str(s))
        t = b['t']
        if t[0] == 'call':
            out.append('   %s = call %s(%s) -> %s unwind %s' % (
                fmt_place(t[3]), fmt_op(t[1]), ', '.join(map(fmt_op, t[2])), t[4], t[5]))
        elif t[0] == 'switch':
            out.append('   switch %s %s else %s' % (fmt_op(t[1]), t[2], t[3]))
        elif t[0] == 'drop':
            out.append('   drop %s -> %s unwind %s' % (fmt_place(t[1]), t[2], t[3]))
        else:
            out.append('   ' + str(t))
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    names = [x[:-5] for x in os.listdir(sys.argv[1]) if x.endswith('.json')]
    P = Program(sys.argv[1], names)
    for f in P.find(sys.argv[2]):
        print(fmt_fn(f))
        print()
