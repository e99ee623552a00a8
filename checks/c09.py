"""Root nodes: constants' recompute changes nothing, a sensor's evaluates its function exactly once and
stores exactly that, a state's does nothing; constructors store the initial value in both fields;
send_up stores exactly the written value; commit reaches each root once."""
from checks import graph, handles


def run(ctx):
    g = graph.Graph(ctx)
    h = handles.Handles(ctx)
    graph.rule_kinds(ctx, g)
    graph.rule_root_write(ctx, g)
    handles.rule_commit(ctx, h)
