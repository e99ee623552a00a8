"""Qt property macros: accessors compared with plain reads and writes of the handle, the callback that construction
registers entered once, and the declarations seen by the meta-object compiler."""
from checks import qtprops


def run(ctx):
    g = qtprops.Props(ctx)
    qtprops.rule_access(ctx, g)
    qtprops.rule_signal(ctx, g)
    qtprops.rule_declared(ctx, g)
    ctx.absorb(g.it)
