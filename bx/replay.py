"""Order of the recorded events under one valuation: loops expanded, path conditions evaluated."""
from .terms import *


class Unclear(Exception):
    pass


def tree(events):
    """nested lists: event | (LoopCtx, [children])"""
    root = []
    stack = [(None, root)]
    for e in sorted(events, key=lambda e: e.seq):
        ls = list(e.loops)
        i = 0
        while i < len(ls) and i + 1 < len(stack) and stack[i + 1][0] is ls[i]:
            i += 1
        del stack[i + 1:]
        for l in ls[i:]:
            node = (l, [])
            stack[-1][1].append(node)
            stack.append((l, node[1]))
        stack[-1][1].append(e)
    return root


def replay(V, events, env=None):
    """(event, environment) in execution order"""
    env = dict(env or {})

    def go(nodes):
        for x in nodes:
            if isinstance(x, tuple):
                l, kids = x
                if l.n is None:
                    raise Unclear('loop without an iteration count at %s' % (l.site,))
                BV.info[l.it] = (ZERO, l.n)
                for k in range(int(V.ev(l.n, env))):
                    env[l.it] = k
                    yield from go(kids)
                env.pop(l.it, None)
            else:
                try:
                    ok = all(V.ev(c, env) for c in x.pc)
                except OutOfRange:
                    ok = False
                if ok:
                    yield x, dict(env)
    yield from go(tree(events))
