"""Trace dataflow of the save and load functions of every immutable container over an opaque archive."""
from checks import archives


USES = ('cereal.cpp',)


def run(ctx):
    archives.rule_containers(ctx)
