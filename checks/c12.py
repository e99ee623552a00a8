"""Turn structure of every store: on every history of a dispatch the effect of the reducer is invoked once
unless empty, in a turn after the reduction (and after publishing, in automatic stores), with the store's
context; nothing is invoked when it is empty or absent."""
from checks import stores


def run(ctx):
    g = stores.Stores(ctx)
    stores.rule_effects(ctx, g)
