"""Shared states: the programs of R05; every handler tells which state object
of three types it sees and how often that object has been seen before, so that
identity, sharing, shadowing and leaks between siblings show."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from app import *


def pick(r):
    return dict(log=[e for e in r["log"] if e[0] == "h"])


main("R06", lambda ck: run_programs(ck, pick))
