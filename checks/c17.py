"""Exceptional-exit analysis of the three event loops: every task invocation may throw; on each such path the
exception leaves the draining function, no lock is held, what remains queued is exactly what was not started,
and the state left behind is analysed again as a starting state."""
from checks import evloops


def run(ctx):
    g = evloops.Evloops(ctx)
    g.find_shared()
    for k in ('manual', 'queue', 'safe'):
        evloops.rule_throw(ctx, g, k)
    ctx.absorb(g.it)
