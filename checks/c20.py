"""Guarded access to possibly absent parts: every use of every lens over keys, indices, optionals,
alternatives and boxes equals its plain-code meaning on every path, with and without exceptions."""
from checks import lenses


USES = ('lenses.cpp',)


def run(ctx):
    lenses.rule_shapes(ctx)
    ls = lenses.Lenses(ctx)
    n = lenses.rule_lens(ctx, ls, 'a_')
    ls = lenses.Lenses(ctx, ['-fno-exceptions'])
    n += lenses.rule_lens(ctx, ls, 'a_')
    ctx.note('%d uses of lenses compared with their meaning' % n)
    n = lenses.rule_keyed(ctx, lenses.Lenses(ctx, witness='keyed.cpp'))
    ctx.note('%d focused handles and writes compared with their meaning' % n)
