"""Debug server: routes compared as languages with the documented interface; handlers entered from the initialised
server; members divided between the threads that use them; connections followed from completion to completion."""
from checks import server


def run(ctx):
    g, inis, hs = server.prepare(ctx)
    server.rule_routes(ctx, g, inis[0], hs)
    server.rule_handlers(ctx, g, inis[0], hs)
    server.rule_sides(ctx, g, inis, hs)
    order = server.rule_init(ctx, g, inis)
    server.rule_order(ctx, g, inis, hs, order)
    server.rule_make(ctx, g)
    server.rule_router(ctx, g)
    server.rule_session(ctx, g)
    server.rule_listener(ctx, g)
    server.rule_server(ctx, g)
    ctx.absorb(g.it)
