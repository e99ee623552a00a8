"""View and set of every lens agree with the same place of the whole in plain code: element by element,
through each component of a composition, for every value category."""
from checks import lenses


USES = ('lenses.cpp',)


def run(ctx):
    lenses.rule_shapes(ctx)
    ls = lenses.Lenses(ctx)
    n = lenses.rule_lens(ctx, ls, 'b_') + lenses.rule_lens(ctx, ls, 'a_')
    ctx.note('%d uses of lenses compared with their meaning' % n)
    n = lenses.rule_keyed(ctx, lenses.Lenses(ctx, witness='keyed.cpp'))
    ctx.note('%d focused handles and writes compared with their meaning' % n)
