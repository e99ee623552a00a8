"""Typestate of the promise of a dispatch over every history of turns: created once on the store's loop,
its future returned, completed once (directly, or by chaining to the effect's future), never before the
reduction, the publication or the effect; without futures nothing is created or completed."""
from checks import stores


def run(ctx):
    g = stores.Stores(ctx)
    stores.rule_futures(ctx, g)
