"""The bounded models of spec/MC_*.tla: which are checked for a property, with which constants."""
import json, os, re, tempfile
import common

# module -> (invariants, temporal properties)
CHECKS = {
    "MC_Derange": (["PushAllowed", "OneAllowed", "ExitAllowed", "Exact", "Fewest", "Emit"], ["Ends"]),
    "MC_Enumerate": (["YieldAllowed", "ExitAllowed", "NextIsNext", "FromFirst", "SkipIsNext", "Emit"], ["Ends"]),
    "MC_Minimize": (["SameAddresses", "OutputAllowed", "JoinsIsMergeable", "IsMaximal", "Shortest", "CoverAgrees", "TestsAgree",
                     "Idempotent", "Emit"], ["Ends"]),
    "MC_Resize": (["PrintAllowed", "ExitAllowed", "KindAgrees", "Tiles", "HostBitsZero", "SkipIsNext", "Emit"], ["Ends"]),
    "MC_Split": (["FitsAllowed", "FitsIffSpec", "FitsIffSum", "Emit"], ["Ends"]),
    "MC_Facts": (["Hosts", "Broadcast", "LastAddr", "NextBase", "Ravel", "PrefixTable", "Halves", "Ordering", "Numbering",
                  "Emit"], []),
    "MC_Text": (["Agree", "AgreeMask", "RoundTrip", "RoundTripNet", "Shortest", "Wildcard", "Emit"], []),
    "AP_Halves": (["AddRight", "Add4Right", "SubOneRight"], []),
    "MC_Chain": (["SameAddresses", "SameMinimum", "Accepted", "OneMinimum", "NeverEmpty", "Emit"], []),
    "MC_Report": (["ClassRight", "ClassOfAll", "ClassIfAll", "ColoursRight", "Colours6Right", "Columns", "Counts", "Emit"], []),
    "MC_Modes": (["SamePlan", "FailsIff", "Emit"], []),
}
SMALL = "CONSTANT Octets <- SmallOctets\nCONSTANT Groups <- SmallGroups\n"
MORE = {"MC_Text": SMALL, "MC_Modes": SMALL}


def run(module, consts, invs=None, props=None, workers=4, timeout=600, heap="4g", view=None, constraint=None, coverage=False):
    """Checks one bounded model; returns (behaviours emitted, stats). A violated model is an error of the machinery."""
    i, p = CHECKS[module]
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    for k, v in consts.items():
        cfg += "CONSTANT %s = %s\n" % (k, str(v).upper() if isinstance(v, bool) else '"%s"' % v if isinstance(v, str) else v)
    cfg += MORE.get(module, "")
    cfg += "".join("INVARIANT %s\n" % x for x in (i if invs is None else invs))
    cfg += "".join("PROPERTY %s\n" % x for x in (p if props is None else props))
    fd, path = tempfile.mkstemp(suffix=".cfg", prefix=module, dir=common.scratch())
    os.write(fd, cfg.encode())
    os.close(fd)
    out, st = common.tlc(module + ".tla", path, workers=workers, timeout=timeout, heap=heap,
                         extra=("-coverage", "1") if coverage else ())
    if not st["ok"]:
        raise common.ToolError("the model %s %r violates its own properties:\n%s" % (module, consts, out[-3000:]))
    beh = []
    for line in out.split("\n"):
        if line.startswith('"BEH '):
            beh.append(json.loads(json.loads(line)[4:]))
    st["model"] = module
    st["constants"] = consts
    st["behaviours"] = len(beh)
    if coverage:
        st["out"] = out
    return beh, st


def apalache(module, inv, timeout=300):
    """Checks an invariant of the initial states, for all integers, with Apalache. Returns the statistics."""
    r = common.tool(["apalache-mc", "check", "--length=0", "--inv=" + inv, "--out-dir=" + common.scratch(),
                     os.path.join(common.SPEC, module + ".tla")], timeout)
    if "The outcome is: NoError" not in r:
        raise common.ToolError("Apalache on %s, %s:\n%s" % (module, inv, r[-3000:]))
    return {"model": module, "constants": {"invariant": inv, "by": "Apalache, for all integers"}, "distinct": 0, "generated": 0, "left": 0,
            "behaviours": 0}
