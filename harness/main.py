"""check.py PROPERTY: models, runs, validation, evidence. What is a violation is decided by the specification."""
import hashlib, json, os, sys, time, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, models
from common import VERIF, ToolError
from gen import Gen
from workloads import Load, WORK

FACTS = "MC_Facts", dict(W=4, Y=2), dict(W=6, Y=3)
DERANGE = "MC_Derange", dict(W=4), dict(W=5)
MIN_C = "MC_Minimize", dict(W=3, LOPSIDED=False, ATMOST=3, ORDERED=False), dict(W=3, LOPSIDED=False, ATMOST=15, ORDERED=False)
MIN_L = "MC_Minimize", dict(W=3, LOPSIDED=True, ATMOST=3, ORDERED=True), dict(W=3, LOPSIDED=True, ATMOST=3, ORDERED=True)
RESIZE = "MC_Resize", dict(W=3), dict(W=4)
SPLIT = "MC_Split", dict(W=3, REQS=2), dict(W=4, REQS=3)
ENUM = "MC_Enumerate", dict(W=3, NETS=1), dict(W=3, NETS=2)
ADDR6 = "MC_Text", dict(KIND="addr", ALPHABET=":01g", N=6, K=2, G=3), dict(KIND="addr", ALPHABET=":01+g", N=8, K=2, G=4)
LONG6 = "MC_Text", dict(KIND="addr", ALPHABET=":0f", N=8, K=2, G=3), dict(KIND="addr", ALPHABET=":0f", N=11, K=2, G=3)
ADDR4 = "MC_Text", dict(KIND="addr", ALPHABET=".25-", N=6, K=2, G=2), dict(KIND="addr", ALPHABET=".256+", N=8, K=2, G=2)
NET = "MC_Text", dict(KIND="net", ALPHABET="1.:/-", N=6, K=2, G=2), dict(KIND="net", ALPHABET="1.:/-", N=8, K=2, G=2)
NETP = "MC_Text", dict(KIND="net", ALPHABET="0/-3:", N=6, K=2, G=2), dict(KIND="net", ALPHABET="0/-3:", N=8, K=2, G=2)
MASK = "MC_Text", dict(KIND="mask", ALPHABET="-1.:f", N=6, K=2, G=2), dict(KIND="mask", ALPHABET="-1.:f", N=8, K=2, G=2)
MASKP = "MC_Text", dict(KIND="mask", ALPHABET="-0123", N=5, K=2, G=2), dict(KIND="mask", ALPHABET="-0123+", N=7, K=2, G=2)
REPORT = "MC_Report", dict(W=5), dict(W=7)
CHAIN = "MC_Chain", dict(W=3, NETS=2, DEPTH=2), dict(W=3, NETS=2, DEPTH=3)
MODES = "MC_Modes", dict(N=3), dict(N=4)

# property -> name of the behaviours: (module, constants quick, constants thorough)
MODELS = {
    "C01": {"facts": FACTS}, "C06": {"minimize": MIN_C, "minimize-lopsided": MIN_L}, "C07": {"minimize": MIN_C, "minimize-lopsided": MIN_L},
    "C08": {"derange": DERANGE}, "C09": {"derange": DERANGE}, "C10": {"split": SPLIT}, "C11": {"split": SPLIT},
    "C12": {"resize": RESIZE}, "C13": {"resize": RESIZE}, "C14": {"enumerate": ENUM},
    "C02": {"mask": MASK, "mask-number": MASKP}, "C03": {"addr6": ADDR6, "addr4": ADDR4, "net": NET, "net-number": NETP, "mask": MASK, "mask-number": MASKP},
    "C05": {"addr6": ADDR6, "addr6-long": LONG6, "addr4": ADDR4}, "C15": {"facts": FACTS}, "C16": {"report": REPORT}, "C17": {"report": REPORT}, "C19": {"chain": CHAIN},
    "C04": {"argv": MODES}, "C18": {"argv": MODES}, "C20": {"argv": MODES},
}

# Checked with Apalache in the thorough tier: (module, invariant)
FULL_WIDTH = {p: ("AP_Halves", "Right") for p in ("C01", "C04", "C08", "C10", "C13", "C14")}

# Clauses that are not named after the property but break it: crashes and unfinished output of its own runs.
ANY = {"any.crash", "any.exit", "any.incomplete"}
OWN_ONLY = {"C03", "C04"}


def relevant(prop, tags):
    own = {t for t in tags if t.startswith(prop + ".")}
    if prop == "C04":
        return own
    if prop not in OWN_ONLY:
        own |= tags & ANY
    return own


def known_findings(prop):
    """Listed findings: {fingerprint: text} for lines 'known: property=<id> <fingerprint> <what fails>'."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                _, _, fp, text = line.rstrip("\n").split(" ", 3)
                res[fp] = text
    return res


def fingerprint(prop, args, tags):
    return hashlib.sha256(json.dumps([prop, args, sorted(tags)]).encode()).hexdigest()[:16]


def merge(stats):
    return sum(s["distinct"] for s in stats), sum(s["generated"] - 0 for s in stats)


def check(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    if thorough:
        common.MAX_LINES, common.BUDGET, common.MAX_OUT = 140000, 2000000, 32 << 20
    if prop == "C03":       # some of the networks meant to be malformed are huge ones
        common.MAX_LINES = 500
    gen = Gen(seed, prop, thorough)
    behaviours, mstats, errors = {}, [], []

    def one_model(name, spec):
        module, quick, deep = spec
        try:
            b, st = models.run(module, dict(deep if thorough else quick, EMIT=True), workers=4, timeout=700)
            behaviours[name] = b
            mstats.append(st)
        except ToolError as e:
            errors.append(str(e))
    def full_width():
        try:
            mstats.append(models.apalache(*FULL_WIDTH[prop]))
        except ToolError as e:
            errors.append(str(e))
    threads = [threading.Thread(target=one_model, args=x) for x in MODELS.get(prop, {}).items()]
    if thorough and prop in FULL_WIDTH:
        threads.append(threading.Thread(target=full_width))
    for t in threads:
        t.start()
    binary = common.build(release=False)
    for t in threads:
        t.join()
    if errors:
        raise ToolError(errors[0])
    for name in behaviours:         # the order in which TLC's workers print is not fixed
        behaviours[name].sort(key=lambda b: json.dumps(b, sort_keys=True))
    t1 = time.time()
    binaries = [("debug", binary)]
    if thorough:
        binaries.append(("release", common.build(release=True)))
    load = Load(gen, lambda jobs: common.run_many(binary, jobs), behaviours)
    load.binary = binary
    WORK[prop](load)
    found, vstats, nruns = {}, [], 0
    t2 = time.time()
    samples, timing = [], {}
    for label, path in binaries:
        runs = common.run_many(path, load.jobs)
        t3 = time.time()
        res = {}

        def val():
            try:
                res["v"] = common.validate(runs)
            except ToolError as e:
                errors.append(str(e))
        th = threading.Thread(target=val)
        th.start()
        try:
            gf, gs = common.relate(load.groups, runs)
        finally:
            th.join()
        if errors:
            raise ToolError(errors[0])
        faults, st = res["v"]
        vstats += [st, gs]
        nruns += len(runs)
        timing[label] = dict(run=round(t3 - t2, 1), validate=round(time.time() - t3, 1))
        for i, event, tags in faults:
            tags = relevant(prop, tags)
            if tags:
                found.setdefault((fingerprint(prop, runs[i]["args"], tags)), dict(
                    kind="run", build=label, runs=[runs[i]], event=event, clauses=sorted(tags)))
        for i, step, tags in gf:
            kind, clause, ids, more = load.groups[i]
            if any(t.startswith("tool.") for t in tags):
                raise ToolError("the generator grouped runs that do not belong together: %r" % [runs[j]["args"] for j in ids])
            tags = relevant(prop, tags)
            if tags:
                found.setdefault((fingerprint(prop, [runs[j]["args"] for j in ids], tags)), dict(
                    kind=kind, build=label, runs=[runs[j] for j in ids], event=step, clauses=sorted(tags)))
        if not samples:
            for j in gen.r.sample(range(len(runs)), min(4, len(runs))):
                samples.append({"args": runs[j]["args"], "exit": runs[j]["code"], "out": runs[j]["out"][:6]})
    known = known_findings(prop)
    new = {k: v for k, v in found.items() if k not in known}
    for k in found:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    replay = None
    if new:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, prop + ".json")
        with open(replay, "w") as f:
            json.dump([dict(v, fingerprint=k) for k, v in list(new.items())[:50]], f, indent=1)
    mstates, mtrans = sum(s["distinct"] for s in mstats), sum(s["generated"] for s in mstats)
    tstates, ttrans = sum(s["distinct"] for s in vstats), sum(s["generated"] for s in vstats)
    inv = sorted({x for m in mstats for x in models.CHECKS[m["model"]][0] if x != "Emit"})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": mstates + tstates, "transitions": mtrans + ttrans,
            "traces_validated_against_impl": nruns,
            "samples": samples,
            "model_states": mstates, "trace_states": tstates,
            "groups_of_runs_related": len(load.groups),
            "models": [{"module": m["model"], "constants": {k: v for k, v in m["constants"].items() if k != "EMIT"},
                        "distinct_states": m["distinct"], "states_generated": m["generated"], "behaviours_emitted": m["behaviours"],
                        "exhaustive": m["left"] == 0} for m in mstats],
            "model_properties": inv,
            "lines_checked": sum(s["distinct"] for s in vstats),
            "timing": timing,
            "rule": "A run is one invocation of the real program (arguments, every line printed, exit status); TLC validates each run as a "
                    "behaviour of spec/Ripcalc.tla, and groups of runs as behaviours of spec/Relate.tla. The bounded models are explored completely.",
        },
        "assumptions": ["addresses are 32 or 128 bits wide and the bounded models generalise in the width",
                        "inputs outside those generated behave like those generated"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    del ev["coverage"]["lines_checked"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: %d model states, %d runs, %d trace states, %d groups, %.1f s (models+build %.1f, generate %.1f, %s)" % (
        prop, tier, mstates, nruns, tstates, len(load.groups), time.time() - t0, t1 - t0, t2 - t1, timing))
    if new:
        for v in list(new.values())[:3]:
            print("  %s event %d: %s" % (v["clauses"], v["event"], [r["args"] for r in v["runs"]][:4]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return check(prop, tier, seed)
    except ToolError as e:
        print("ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        common.cleanup()


if __name__ == "__main__":
    sys.exit(main())
