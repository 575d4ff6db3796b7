"""optional: two-object state machine, all transitions x instantiations
replayed, plus random histories with throwing element operations judged by TLC."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from sumtypes import *

COMBOS = [("c", "trk"), ("m", "trk"), ("i", "triv"), ("o", "mo"), ("v", "void"), ("r", "ref")]


def run(ck):
    run_check(ck, "optional", "OptionalMC", "OptionalTrace", COMBOS, None,
              dict(Kinds='{"trk", "triv", "mo", "ref", "void"}'),
              ["SwapTwice", "CopyEqual", "TotalOrder", "ObserversPure"],
              lambda k: ["v0", "e0"] if k == "void" else ["v1", "v2", "e0"],
              lambda k: dict(kT=k), None)


main("K01", run)
