"""C25: an estimator fitted again is as good as a new one"""
from .usecommon import *

INFO = {"explanation": "Sessions with every estimator (fit, queries, refits) executed on symbolic data; an estimator fitted again is as good as a new one."}


def harnesses(tier):
    return families(("refit",), tier)


replay = replay_for(("refit",))
