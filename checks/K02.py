"""expected: two-object state machine, all transitions x instantiations
replayed, plus random histories with throwing element operations judged by TLC."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from sumtypes import *

COMBOS = [("cc", ("trk", "trk")), ("cm", ("trk", "trk")), ("mc", ("trk", "trk")), ("same", ("trk", "trk")),
          ("ci", ("trk", "triv")), ("ic", ("triv", "trk")), ("im", ("triv", "trk")), ("ii", ("triv", "triv")),
          ("oc", ("mo", "trk")), ("vc", ("void", "trk")), ("vm", ("void", "trk")), ("vi", ("void", "triv")),
          ("rc", ("ref", "trk")), ("rm", ("ref", "trk")), ("ri", ("ref", "triv"))]


def run(ck):
    kinds = sorted({k for _, k in COMBOS})
    run_check(ck, "expected", "ExpectedMC", "ExpectedTrace", COMBOS, None,
              dict(Kinds="{" + ", ".join('<<"%s", "%s">>' % k for k in kinds) + "}"),
              ["OneOf", "MovedOnlyIfMovable", "SwapTwice", "CopyEqual", "ObserversPure"],
              lambda k: ["v0", "e1", "e2"] if k[0] == "void" else ["v1", "v2", "e1", "e2"],
              lambda k: dict(kT=k[0], kE=k[1]), None)


main("K02", run)
