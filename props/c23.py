"""C23: GraphMDL's description lengths are those of its definition"""
from .graphspecs import *

INFO = {"explanation": "GraphMDL.fit, CodeTable.cover and the functions that compute lengths executed on directed graphs whose labels are symbolic texts."}


def harnesses(tier):
    return families(("dl",), tier)


replay = replay_for(("dl",))
