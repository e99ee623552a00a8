"""Lockset analysis of the thread-safe queue (every access to a queue that post() uses from other threads,
no task while a lock is held, own-thread queue only after the thread check) and inductive queue-position
analysis of step() with other threads posting whenever the lock is free."""
from checks import evloops


def run(ctx):
    g = evloops.Evloops(ctx)
    evloops.rule_locks(ctx, g)
    evloops.rule_drain(ctx, g, 'safe')
    evloops.rule_post(ctx, g, 'safe', ['safe_post', 'safe_postw'])
    evloops.rule_adopt(ctx, g)
