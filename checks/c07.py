"""Typestate of a handle's link to its node over watch/bind/unbind/assign/copy/move/destroy: linked
exactly while it has callbacks and only to the observed node; callbacks stay with their handle."""
from checks import handles


def run(ctx):
    h = handles.Handles(ctx)
    handles.rule_watch(ctx, h)
    handles.rule_unbind(ctx, h)
    handles.rule_assign(ctx, h)
    handles.rule_copy(ctx, h)
    handles.rule_release(ctx, h)
    handles.rule_signal(ctx, h)
