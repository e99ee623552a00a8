"""Setter nodes: on every path of a write the setter is called once with the written value, no write
goes to the source, the written value becomes pending, and (automatic) is published without a
recompute from the source in between; propagation takes the source's value."""
from checks import graph


def run(ctx):
    g = graph.Graph(ctx)
    graph.rule_setter(ctx, g)
    graph.rule_auto_publishes(ctx, g)
    graph.rule_auto_order(ctx, g)
