"""Effects abstractly executed for any mix of empty, noop, void and future-returning parts: which parts run, in what
order, on which context, what the returned future waits for, and emptiness through every conversion."""
from checks import effects


USES = ('effects.cpp',)


def run(ctx):
    g = effects.Effects(ctx)
    effects.rule_sequence(ctx, g)
    effects.rule_empty(ctx, g)
    effects.rule_result(ctx, g)
    effects.rule_reducer(ctx, g)
