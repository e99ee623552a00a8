"""Contexts abstractly converted along chains and used: dispatcher, action, future, dependencies and loop reached are those
of the original, by value provenance on every path."""
from checks import contexts


USES = ('contexts.cpp',)


def run(ctx):
    g = contexts.Contexts(ctx)
    contexts.rule_dispatch(ctx, g)
    contexts.rule_deps(ctx, g)
    contexts.rule_loop(ctx, g)
