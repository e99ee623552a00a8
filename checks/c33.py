"""Path-sensitive dataflow of derived equality, hashing, archiving and enum conversion over opaque members."""
from checks import derived


USES = ('derived.cpp',)


def run(ctx):
    derived.rule_all(ctx)
    derived.rule_rejects(ctx)
