"""Dataflow over pausing, queueing and resuming with an inductive argument for the walk over the queued actions."""
from checks import debuggers, trees


def run(ctx):
    for d in (debuggers.Linear(ctx), trees.Tree(ctx)):
        debuggers.rule_pausing(ctx, d)
