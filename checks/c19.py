"""Adaptors to toolkits: every path of post, async, finish, pause, resume and of the loops of SDL judged by the calls that
receive the function, with closures entered once and loops by induction."""
from checks import toolkits


def run(ctx):
    g = toolkits.Toolkits(ctx)
    toolkits.rule_post(ctx, g)
    toolkits.rule_async(ctx, g)
    toolkits.rule_control(ctx, g)
    toolkits.rule_item(ctx, g)
    toolkits.rule_loops(ctx, g)
    ctx.absorb(g.it)
