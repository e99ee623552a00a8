"""Files of the debug server: where every path that reaches a file opening was put together from, and what is known
about the pieces that come from the request."""
from checks import server


def run(ctx):
    g, inis, hs = server.prepare(ctx)
    server.rule_files(ctx, g, inis, hs)
    ctx.absorb(g.it)
