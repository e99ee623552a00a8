"""Typestate of the notification mark: observers are called at most once per path of notify(),
exactly when the mark says the published value changed, the mark is cleared before they run and
set by send_down exactly when the published value differs; signals call every slot once."""
from checks import graph, handles


def run(ctx):
    g = graph.Graph(ctx)
    h = handles.Handles(ctx)
    graph.rule_notify_mark(ctx, g)
    graph.rule_observed_value(ctx, g)
    handles.rule_signal(ctx, h)
    graph.rule_notify_reaches(ctx, g)
    graph.rule_children_told(ctx, g)
    graph.rule_uncomparable(ctx, g)
    handles.rule_commit(ctx, h)
    handles.rule_watch(ctx, h)
