"""Value-provenance dataflow over every step of the debuggers: what the reducer is called with, what is recorded and shown;
for the tree, induction over the depth of the position."""
from checks import debuggers, trees


def run(ctx):
    d = debuggers.Linear(ctx)
    debuggers.rule_travel(ctx, d)
    debuggers.rule_shown(ctx, d)
    t = trees.Tree(ctx)
    debuggers.rule_travel(ctx, t)
    trees.rule_walks(ctx, t, False, True)
    trees.lookups(ctx, t, False, True)
