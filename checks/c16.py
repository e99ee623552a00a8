"""Inductive queue-position analysis of the manual and queue event loops: on every abstract path of draining
(loop widened, any task may post more work or throw) the task run next is the one after those already run,
what is left matches what was run, a fully drained exit is decided against the content after the last task;
re-entrancy: posting from the state at every task invocation only enqueues."""
from checks import evloops


def run(ctx):
    g = evloops.Evloops(ctx)
    for k in ('manual', 'queue'):
        evloops.rule_drain(ctx, g, k)
    evloops.rule_nested(ctx, g)
    evloops.rule_post(ctx, g, 'manual', ['manual_post', 'manual_postm'])
    evloops.rule_post(ctx, g, 'queue', ['queue_post', 'queue_postw'])
