"""insert: a failed delivery leaves nothing behind, a kept one is never removed."""
from . import delivery


def run(P, tier):
    return delivery.analyse(P, delivery.CLEAN)
