"""Setting through keys, members, elements, tuples, zipped and fanned lenses, getter/setter pairs, erased
lenses and their compositions equals replacing that part in plain code, for every value category."""
from checks import lenses


USES = ('lenses.cpp',)


def run(ctx):
    ls = lenses.Lenses(ctx)
    n = lenses.rule_lens(ctx, ls, 'b_', ('set', 'over'))
    n += lenses.rule_lens(ctx, ls, 'a_', ('set', 'over'))
    n += lenses.rule_view_keeps(ctx, ls)
    ctx.note('%d uses of lenses compared with their meaning' % n)
