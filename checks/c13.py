"""Turn structure of every store: every history of an automatic store's dispatch stores the model, then
publishes, then notifies the same node; no history of a transactional one publishes or notifies; commit does
both, on every root, in that order."""
from checks import handles, stores


def run(ctx):
    g = stores.Stores(ctx)
    stores.rule_publish(ctx, g)
    handles.rule_commit(ctx, handles.Handles(ctx))
