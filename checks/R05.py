"""Middlewares: TLC builds programs out of scopes, routes, middlewares and
states (spec/AppMC.tla) and checks the laws of the onion on each; the programs
are written out as C++, compiled and served, and every request's sequence of
layers, trace of response headers and status is compared."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from app import *


def pick(r):
    return dict(status=r["status"], tr=r["tr"], log=[e.split(":")[0] for e in r["log"]])


main("R05", lambda ck: run_programs(ck, pick))
