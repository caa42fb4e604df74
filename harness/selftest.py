"""How tight the binding is. Not a check: it reports what survives.
  selftest.py traces [property ...]   recorded runs are corrupted (a character, a line, the exit); the specification has to
                                      reject every corrupted run that breaks a property.
  selftest.py spec [module ...]       the specification is mutated; a mutation has to change the verdict on some recorded or
                                      corrupted run or group of runs, or (MODELS=1) to make a bounded model fail."""
import json, os, random, re, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, models, main
from gen import Gen
from workloads import Load, WORK

DIGITS = "0123456789abcdef"
MODELS = os.environ.get("MODELS")          # also run the bounded models on what the runs do not notice


def corruptions(r, run):
    """One corrupted copy of a run each: (what, run)."""
    out = run["out"]
    new = lambda what, **k: (what, dict(run, **k))
    i = r.randrange(len(out)) if out else 0
    line = out[i] if out else ""
    if line and not isinstance(line, int):
        p = r.randrange(len(line))
        c = line[p]
        if c in "01" and len(line) - p < (40 if "." in line else 140):
            d = "1" if c == "0" else "0"
        elif c in DIGITS:
            d = r.choice([x for x in DIGITS if x != c])
        else:
            d = r.choice([x for x in "x :./-" if x != c])
        yield new("character %d of %r to %r" % (p, line, d), out=out[:i] + [line[:p] + d + line[p + 1:]] + out[i + 1:])
        yield new("character %d of %r left out" % (p, line), out=out[:i] + [line[:p] + line[p + 1:]] + out[i + 1:])
        yield new("character %d of %r twice" % (p, line), out=out[:i] + [line[:p] + c + line[p:]] + out[i + 1:])
        yield new("space after %r" % line, out=out[:i] + [line + " "] + out[i + 1:])
    if out and not isinstance(line, int):
        yield new("line %d (%r) left out" % (i, line), out=out[:i] + out[i + 1:])
        yield new("line %d (%r) twice" % (i, line), out=out[:i] + [line] + out[i:])
        if i + 1 < len(out) and not isinstance(out[i + 1], int) and out[i + 1] != line:
            yield new("lines %d (%r) and (%r) exchanged" % (i, line, out[i + 1]), out=out[:i] + [out[i + 1], line] + out[i + 2:])
        yield new("cut after line %d of %d" % (i, len(out)), out=out[:i])
    yield new("a line at the end", out=out + [r.choice(["", "10.0.0.0/8", "::1/128", "no hosts", "Unused networks:", "1.2.3.4"])])
    yield new("exit %d" % (1 - run["code"] if run["code"] in (0, 1) else 0), code=1 - run["code"] if run["code"] in (0, 1) else 0,
              err=1 - run["code"] if run["code"] in (0, 1) else 0)
    if run["code"] == 1:        # a message on standard error is nothing that a successful run must not print
        yield new("no message", err=0, usg=0)
    yield new("panic", code=101, err=1)


def traces(props, count, seed):
    binary = common.build()
    total = left = 0
    for prop in props:
        r = random.Random("%s %s" % (prop, seed))
        behaviours = {n: sorted(models.run(m, dict(q, EMIT=True))[0], key=lambda b: json.dumps(b, sort_keys=True))
                      for n, (m, q, d) in main.MODELS.get(prop, {}).items()}
        load = Load(Gen(seed, prop, False), lambda jobs: common.run_many(binary, jobs), behaviours)
        WORK[prop](load)
        runs = common.run_many(binary, r.sample([j for j in load.jobs if len(j) < 3 or not j[2]], min(count, len(load.jobs))))
        bad = [c for run in runs if len(run["out"]) < 300 for c in corruptions(r, run)]
        faults, _ = common.validate([b[1] for b in bad])
        hit = {f[0] for f in faults}
        total += len(bad)
        for k, (what, run) in enumerate(bad):
            if k not in hit:
                left += 1
                print("SURVIVES %s %s col %d: %s" % (prop, run["args"][:6], run["col"], what[:200]))
    print("%d corrupted runs, %d accepted" % (total, left))


SWAPS = [(r"(?<=[\w)}\]]) <= (?=[\w(])", " < "), (r"(?<=[\w)}\]]) < (?=[\w(])", " <= "), (r"(?<=[\w)}\]]) >= (?=[\w(])", " > "),
         (r"(?<=[\w)}\]]) > (?=[\w(])", " >= "), (r"(?<=[\w)}\]>]) = (?=[\w({\[<~\"])", " # "), (r"(?<=[\w)}\]>]) # (?=[\w({\[<~\"])", " = "),
         (r" \+ 1\b", " + 0"), (r" - 1\b", " - 0"), (r"\\cup", "\\\\cap"), (r"\\cap", "\\\\cup"), (r"\\A\b", "\\\\E"), (r"\\E\b", "\\\\A"),
         (r"(?<=\S) /\\ ", " \\\\/ "), (r"(?<=\S) \\/ ", " /\\\\ "), (r"~(?=\w)", ""), (r"\b1\.\.", "2.."), (r"\bIF (.+?) THEN\b", r"IF ~(\1) THEN"),
         (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"), (r"\{\"C[^}]*\"\}", "{}"), (r"\\in\b", "\\\\notin"), (r"\\notin\b", "\\\\in"),
         (r"(?<![\w.\"])([0-9]{1,3})(?![\w.\"])", lambda m: str(int(m.group(1)) + 1))]


def mutants(text):
    """(line, old, new, mutated text) for every mutation of a module."""
    body = re.sub(r"\(\*.*?\*\)", lambda m: re.sub(r"[^\n]", " ", m.group()), text, flags=re.S)
    body = re.sub(r"\\\*[^\n]*", lambda m: " " * len(m.group()), body)
    first = body.index("EXTENDS") if "EXTENDS" in body else 0
    seen = set()
    for pat, new in SWAPS:
        for m in re.finditer(pat, body):
            if m.start() < first or '"' in text[m.start():m.end()] and not m.group().startswith('{"C'):
                continue
            line = text.rfind("\n", 0, m.start()) + 1
            before = text[line:m.start()]
            if before.count('"') % 2:
                continue
            by = m.expand(new) if isinstance(new, str) else new(m)
            t = text[:m.start()] + by + text[m.end():]
            if t not in seen:
                seen.add(t)
                yield text.count("\n", 0, m.start()) + 1, m.group(), by, t


def material(count, seed):
    """Runs with their corruptions, and groups."""
    binary = common.build()
    runs, groups = [], []
    for prop in sorted(WORK):
        r = random.Random("%s %s" % (prop, seed))
        behaviours = {n: sorted(models.run(m, dict(q, EMIT=True))[0], key=lambda b: json.dumps(b, sort_keys=True))
                      for n, (m, q, d) in main.MODELS.get(prop, {}).items()}
        load = Load(Gen(seed, prop, False), lambda jobs: common.run_many(binary, jobs), behaviours)
        WORK[prop](load)
        jobs = [j for j in load.jobs if len(j) < 3 or not j[2]]
        mine = [x for x in common.run_many(binary, r.sample(jobs, min(4 * count, len(jobs)))) if len(x["out"]) < 60][:count]
        runs += mine
        for x in mine:
            c = list(corruptions(r, x))
            runs += [b[1] for b in r.sample(c, min(6, len(c)))]
        for g in r.sample(load.groups, min(3 * count, len(load.groups))):
            ids = g[2]
            rs = common.run_many(binary, [load.jobs[j] for j in ids])
            if sum(len(x["out"]) for x in rs) > 150:
                continue
            for k in range(-1, min(3, len(rs))):
                v = list(rs)
                if k >= 0:
                    k = r.randrange(len(rs))
                    c = list(corruptions(r, v[k]))
                    v[k] = r.choice(c)[1]
                groups.append((g[0], g[1], list(range(len(runs), len(runs) + len(v))), g[3], v))
    return runs, groups


def reach(name, seen=None):
    """The modules a module is made of."""
    seen = set() if seen is None else seen
    path = os.path.join(common.SPEC, name + ".tla")
    if name not in seen and os.path.exists(path):
        seen.add(name)
        for m in re.findall(r"EXTENDS ([\w, ]+)|INSTANCE (\w+)", open(path).read()):
            for n in (m[0] or m[1]).split(","):
                reach(n.strip(), seen)
    return seen


def verdicts(runs, groups, which):
    f, _ = common.validate(runs) if which == "runs" else ([], None)
    if which == "runs":
        groups = []
    allruns, gs = [], []
    for kind, clause, ids, more, v in groups:
        gs.append((kind, clause, list(range(len(allruns), len(allruns) + len(v))), more))
        allruns += v
    h, _ = common.relate(gs, allruns) if gs else ([], None)
    norm = lambda fs: [(a, b, sorted(c)) for a, b, c in fs]
    return norm(f), norm(h)


def spec(modules, count, seed, share):
    runs, groups = material(count, seed)
    base = {k: verdicts(runs, groups, k) for k in ("runs", "groups")}
    print("%d runs, %d groups, %d and %d faults" % (len(runs), len(groups), len(base["runs"][0]), len(base["groups"][1])), flush=True)
    home = common.SPEC
    tally = {}
    r = random.Random(seed)
    for name in modules:
        path = os.path.join(home, name + ".tla")
        ms = list(mutants(open(path).read()))
        ms = sorted(r.sample(ms, max(1, int(len(ms) * share))), key=lambda m: m[0])
        kind = "groups" if name == "Relate" else "runs"
        for line, old, new, text in ms:
            d = tempfile.mkdtemp(prefix="spec-", dir=common.scratch())
            shutil.copytree(home, d + "/spec", ignore=shutil.ignore_patterns("states"))
            with open(d + "/spec/" + name + ".tla", "w") as f:
                f.write(text)
            common.SPEC = d + "/spec"
            fate = "SURVIVES"
            try:
                if not name.startswith("Coded") and verdicts(runs, groups, kind) != base[kind]:
                    fate = "noticed on runs"
                elif MODELS:
                    for m, q, _ in {json.dumps(x[:2]): x for p in main.MODELS.values() for x in p.values()}.values():
                        if name in reach(m):
                            models.run(m, dict(q, EMIT=False), workers=8, timeout=120)
            except common.ToolError as e:
                fate = "not a specification" if re.search("Parsing or semantic|Parse Error|Unknown operator|Semantic error", str(e)) else "noticed by TLC"
            finally:
                common.SPEC = home
                shutil.rmtree(d, ignore_errors=True)
            tally[name, fate] = tally.get((name, fate), 0) + 1
            if fate == "SURVIVES":
                print("SURVIVES %s:%d %r -> %r   %s" % (name, line, old, new, text.split("\n")[line - 1].strip()[:150]), flush=True)
        print(name, {k[1]: v for k, v in sorted(tally.items()) if k[0] == name}, flush=True)


if __name__ == "__main__":
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if sys.argv[1] == "traces":
            traces(sys.argv[2:] or sorted(WORK), int(os.environ.get("COUNT", "60")), seed)
        elif sys.argv[1] == "spec":
            spec(sys.argv[2:] or ["Bits", "Net", "Text", "Report", "Minimize", "Derange", "Split", "Resize", "Enumerate", "Ripcalc",
                                  "Relate", "Coded", "CodedText", "CodedReport"],
                 int(os.environ.get("COUNT", "20")), seed, float(os.environ.get("SHARE", "1")))
    finally:
        common.cleanup()
