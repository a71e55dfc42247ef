"""C24: data and settings are left as they are"""
from .usecommon import *

INFO = {"explanation": "Sessions with every estimator (fit, queries, refits) executed on symbolic data; data and settings are left as they are."}


def harnesses(tier):
    return families(("untouched",), tier)


replay = replay_for(("untouched",))
