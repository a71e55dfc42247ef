"""C22: GraphMDL's rewritten graph and patterns give back exactly the data graph"""
from .graphspecs import *

INFO = {"explanation": "GraphMDL.fit, CodeTable.cover and the functions they call executed on directed graphs whose labels are symbolic texts."}


def harnesses(tier):
    return families(("told",), tier)


replay = replay_for(("told",))
