"""insert: success only after the message is completely and durably in the mail store and indexed."""
from . import delivery


def run(P, tier):
    return delivery.analyse(P, delivery.ORDER)
