"""Difference-bound dataflow over every step of the debuggers, on arbitrary consistent models; for the tree, induction over
the depth of the position."""
from checks import debuggers, trees


def run(ctx):
    d = debuggers.Linear(ctx)
    debuggers.rule_positions(ctx, d)
    trees.rule_positions(ctx, trees.Tree(ctx))
