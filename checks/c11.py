"""Turn structure of every store: dispatch, on every path, posts exactly one piece of work and calls no
user code; that work, executed abstractly as a later turn, calls the reducer exactly once with the pending
model and the action, and the result is stored as the pending model."""
from checks import stores


def run(ctx):
    g = stores.Stores(ctx)
    stores.rule_enqueue(ctx, g)
    stores.rule_reduce(ctx, g)
