"""Write provenance: what every derived cursor sends to each source equals the oracle's term, built on
the source's latest pending value (refresh dominates the read), for lvalue and rvalue
arguments; no moved-from value is used; set/update on all writers hand over exactly the value."""
from checks import derive, graph, handles


USES = ('derive.cpp',)


def run(ctx):
    g = graph.Graph(ctx)
    h = handles.Handles(ctx)
    d = derive.Derive(ctx)
    graph.rule_send_up(ctx, g)
    graph.rule_derived(ctx, g, ('refresh',))
    graph.rule_write_goes_up(ctx, g)
    derive.rule_writes(ctx, d)
    handles.rule_set(ctx, h)
    graph.rule_root_write(ctx, g)
