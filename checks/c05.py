"""Values: the term computed for every expression over readers (zoom, map, filter, xform, with, and
their combinations) is the term of its oracle written directly with view/transducer/tuple, at
creation and after a symbolic change of all sources; recompute of every node class derives the
pending value from the parents' visible values, all of them, in order."""
from checks import derive, graph


USES = ('derive.cpp',)


def run(ctx):
    g = graph.Graph(ctx)
    d = derive.Derive(ctx)
    graph.rule_derived(ctx, g)
    derive.rule_values(ctx, d)
    graph.rule_publish(ctx, g)
    graph.rule_children_told(ctx, g)
    derive.rule_links(ctx, d)
    graph.rule_write_goes_up(ctx, g)
