"""Two phases.  commit() over any mix of roots: on every path every root is propagated before
any root is notified.  Automatic states and setters: the published value is stored and sent
down before notification starts.  A node's send_down publishes before it tells dependents, tells
every live dependent, and never notifies; notify never publishes or propagates."""
from checks import graph, handles, stores


def run(ctx):
    g = graph.Graph(ctx)
    h = handles.Handles(ctx)
    handles.rule_commit(ctx, h)
    graph.rule_auto_order(ctx, g)
    graph.rule_notify_does_not_publish(ctx, g)
    graph.rule_no_notify_while_propagating(ctx, g)
    graph.rule_publish(ctx, g)
    graph.rule_children_told(ctx, g)
    stores.rule_publish(ctx, stores.Stores(ctx))
