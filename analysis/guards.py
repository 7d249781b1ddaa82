"""Conditions under which a node of a syntax tree is reached (dominating tests with their polarity)."""
from syntree import path, tail

DIVERGE = ('return', 'break', 'continue')


def leaves(n):
    """Does control never run past this node?"""
    if not isinstance(n, list) or not n:
        return False
    k = n[0]
    if k in DIVERGE:
        return True
    if k in ('block', 'unsafe'):
        return any(leaves(s) for s in n[2])
    if k in ('semi', 'tail', 'paren'):
        return leaves(n[2])
    if k == 'if':
        return n[4] is not None and leaves(n[3]) and leaves(n[4])
    if k == 'match':
        return bool(n[3]) and all(leaves(a[4]) for a in n[3])
    if k == 'macro':
        return n[2] in ('panic', 'unreachable', 'unimplemented', 'todo')
    return False


def walk(n, guards, visit, loops=()):
    """visit(node, guards, loops): guards are ('if', cond, polarity) or ('arm', scrutinee, earlier arms, arm)."""
    if not isinstance(n, list) or not n:
        return
    if not isinstance(n[0], str):
        for x in n:
            walk(x, guards, visit, loops)
        return
    k = n[0]
    visit(n, guards, loops)
    if k == 'if':
        walk(n[2], guards, visit, loops)
        walk(n[3], guards + [('if', n[2], True)], visit, loops)
        if n[4] is not None:
            walk(n[4], guards + [('if', n[2], False)], visit, loops)
    elif k == 'match':
        walk(n[2], guards, visit, loops)
        for i, a in enumerate(n[3]):
            g = guards + [('arm', n[2], n[3][:i], a)]
            walk(a[3], g, visit, loops)
            walk(a[4], g, visit, loops)
    elif k == 'bin' and n[2] in ('&&', '||'):
        walk(n[3], guards, visit, loops)
        walk(n[4], guards + [('if', n[3], n[2] == '&&')], visit, loops)
    elif k in ('block', 'unsafe'):
        g = list(guards)
        for s in n[2]:
            walk(s, g, visit, loops)
            e = s[2] if s[0] in ('semi', 'tail') else s
            if isinstance(e, list) and e and e[0] == 'if':
                if leaves(e[3]):
                    g = g + [('if', e[2], False)]
                elif e[4] is not None and leaves(e[4]):
                    g = g + [('if', e[2], True)]
            if isinstance(e, list) and e and e[0] == 'match':
                out = [a for a in e[3] if not leaves(a[4])]
                if len(out) == 1:
                    i = e[3].index(out[0])
                    g = g + [('arm', e[2], e[3][:i], out[0])]
    elif k in ('for',):
        walk(n[3], guards, visit, loops)
        walk(n[4], guards, visit, loops + (n,))
    elif k == 'item':
        return
    else:
        for x in n[2:]:
            if isinstance(x, list):
                walk(x, guards, visit, loops)
