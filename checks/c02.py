"""Provenance of what is read: get() of every handle and every value passed to callbacks is the
visible field of the node; that field is only ever assigned in the publishing step, there from
the pending value; pending writes are marked for publication and transactional writes publish
and notify nothing."""
from checks import graph, handles


def run(ctx):
    g = graph.Graph(ctx)
    h = handles.Handles(ctx)
    handles.rule_get(ctx, h)
    graph.rule_auto_publishes(ctx, g)
    graph.rule_visible_only_by_publish(ctx, g)
    graph.rule_observed_value(ctx, g)
    graph.rule_dirty_invariant(ctx, g)
    graph.rule_publish(ctx, g)
    handles.rule_signal(ctx, h)
    graph.rule_root_write(ctx, g)
    handles.rule_commit(ctx, h)
