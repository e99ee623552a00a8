"""Traversals: loops over dependents and callbacks visit every index on every path (loop-coverage
analysis), call each live dependent exactly once and skip expired ones; collection erases only
expired dependents and never while a traversal is active; no iterator into a live container is
held across calls that can reach user code."""
from checks import derive, graph, handles


def run(ctx):
    g = graph.Graph(ctx)
    h = handles.Handles(ctx)
    d = derive.Derive(ctx)
    graph.rule_children_told(ctx, g)
    graph.rule_notify_reaches(ctx, g)
    graph.rule_collect(ctx, g)
    graph.rule_notify_iteration(ctx, g)
    handles.rule_signal(ctx, h)
    handles.rule_signal_iteration(ctx, h)
    derive.rule_links(ctx, d)
