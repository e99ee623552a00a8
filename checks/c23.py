"""Dataflow through the dependency containers (down into hana's storage): what each lookup gives after any construction,
conversion or merge, as a value or as the very object; type checker: exactly the conversions that have everything compile."""
from checks import depsets


USES = ('deps.cpp',)


def run(ctx):
    g = depsets.Depsets(ctx)
    depsets.rule_get(ctx, g)
    depsets.rule_missing(ctx)
