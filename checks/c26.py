"""Enhancers abstractly composed over an opaque next stage: each component reaching it, its types and tags against the
composition written out, by value provenance on every path; thunk reducers against their specification."""
from checks import enhancers


USES = ('enhance.cpp',)


def run(ctx):
    g = enhancers.Enhancers(ctx)
    enhancers.rule_stage(ctx, g)
    enhancers.rule_handle(ctx, g)
    enhancers.rule_thunk(ctx, g)
    enhancers.rule_seen(ctx)
