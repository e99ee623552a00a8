"""Typestate of the state shared by promise and future: promise() and then() are analysed from an arbitrary
shared state (so both orders of completing and attaching, and completing twice, are paths), the closures they
post or keep are analysed as later turns; lockset rule on every field of the shared state that ever changes,
in builds with and without assertions."""
from checks import futures


USES = ('future.cpp',)


def run(ctx):
    g = futures.Futures(ctx)
    futures.rule_complete(ctx, g)
    futures.rule_then(ctx, g)
    futures.rule_make(ctx, g)
    futures.rule_also(ctx, g)
    futures.rule_locked(ctx, g)
    futures.rule_locked(ctx, futures.Futures(ctx, flags=['-UNDEBUG']))
