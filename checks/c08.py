"""Ownership edges: derived nodes keep every source in an owning field for their whole life, dependents
are registered only through weak references, signals own nothing, handles own their node."""
from checks import derive, graph, handles, ownership


def run(ctx):
    g = graph.Graph(ctx)
    h = handles.Handles(ctx)
    d = derive.Derive(ctx)
    ownership.rule_nodes(ctx, g)
    ownership.rule_signal_owns_nothing(ctx, g)
    ownership.rule_handles(ctx, h)
    ownership.rule_expressions(ctx, d)
    derive.rule_links(ctx, d)
