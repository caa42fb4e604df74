"""Building ripcalc, running it, and running TLC. Decides nothing itself."""
import fcntl, json, os, pty, re, resource, select, shutil, struct, subprocess, tempfile, termios, time, tty, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RIPCALC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class ToolError(Exception):
    pass


def build(release=False):
    """Builds ripcalc from the working tree of REPO; returns the binary's path."""
    target = os.path.join(BUILD, "target" if REPO == "/repo" else "target-%08x" % zlib.crc32(REPO.encode()))
    profile = "release" if release else "debug"
    env = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS"):
        env.pop(k, None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               HOME=env.get("HOME", "/root"))
    env["PATH"] = "/usr/local/bin:" + env["HOME"] + "/.cargo/bin:" + env["PATH"]
    # cargo compares modification times: forget ripcalc's own fingerprints so that it always looks
    fp = os.path.join(target, profile, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("ripcalc-"):
                shutil.rmtree(os.path.join(fp, d))
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
           "--target-dir", target, "--config", 'profile.dev.package."*".opt-level=2',
           # overflow checks also in the release build: a wrapped number is never intended here
           "--config", "profile.release.overflow-checks=true"]
    if release:
        cmd.append("--release")
    r = subprocess.run(cmd, env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("ripcalc does not build:\n" + r.stdout[-3000:])
    return os.path.join(target, profile, "ripcalc")


MAX_OUT = 4 << 20


def _limits(most):
    resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (most, most))
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60) if most == HUGE else (20, 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


_ENV = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "RUST_BACKTRACE": "0"}


# How a run's output is coloured: 0 no terminal, 1 forced, 2 a terminal, 3 a terminal with colours switched off;
# ten times the number of the surroundings is added.
COLOURED = {0: 0, 1: 1, 2: 1, 3: 0}
# What is different around a run: environment (None: empty but for what colours need), name it is called by, standard input, terminal size
SURROUNDINGS = [
    ({}, None, b"", None),
    (None, "x", b"", (5, 20)),
    ({"LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8", "COLUMNS": "40", "LINES": "3", "TZ": "Pacific/Apia", "HOME": "/nonexistent", "USER": "nobody", "SHELL": "/bin/sh", "PAGER": "cat"},
     "ripcalc-minimize", b"10.0.0.0/8\n--help\n", (1, 1)),
    ({"LC_ALL": "C", "TERM": "dumb", "IFS": ":", "POSIXLY_CORRECT": "1", "DEBUG": "1", "VERBOSE": "1", "RUST_LOG": "trace", "RIPCALC": "-m", "RIPCALC_OPTS": "--help", "MASK": "8"},
     "", b"\0" * 5000, (200, 500)),
    ({"LC_ALL": "tr_TR.UTF-8", "LANGUAGE": "ja", "PWD": "/dev", "EMPTY": "", "A" * 300: "B" * 3000}, "/usr/bin/-e", b"::/0", (24, 80)),
    # what standard input and output can be
    ({}, None, "tty", None),
    ({}, None, "closed pipe", None),
    ({}, None, "file pipe", None),
    ({}, None, "dir file", None),
]


# Surroundings may also have: the directory and the executable.
FIRST_FOUND = len(SURROUNDINGS)


def probe():
    """The library that notes what ripcalc asks for; None if it cannot be had."""
    so = os.path.join(scratch(), "probe.so")
    if not os.path.exists(so):
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(VERIF, "harness", "probe.c"), "-ldl"],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode != 0:
            return None
    return so


def asked_for(binary, argss):
    """What ripcalc asks its surroundings for: variables (E) and files (F) by name, the clock (T), its process number (P), and which invocations do."""
    res = {"E": {}, "F": {}, "T": {}, "P": {}}
    so = probe()
    if so is None:
        return res
    log, home = os.path.join(scratch(), "probe.log"), os.path.join(scratch(), "home")
    os.makedirs(home, exist_ok=True)
    for args in argss:
        for more in ({}, {"CLICOLOR_FORCE": "1"}):
            if os.path.exists(log):
                os.unlink(log)
            try:
                subprocess.run([binary] + args, env=dict(_ENV, LD_PRELOAD=so, PROBE_LOG=log, HOME=home, **more), cwd=home, timeout=20,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lambda: _limits(MAX_OUT))
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(log):
                for line in open(log, errors="replace"):
                    if line[:1] in res and line[1:2] == " " and line[2:].strip():
                        who = res[line[0]].setdefault(line[2:-1], [])
                        if args not in who:
                            who.append(args)
    return res


HUGE = 80 << 20


def keep_lines(lines, keep):
    """The lines at the beginning, at the end and around some others; a number stands for that many lines between them."""
    head, tail, at = keep
    n = len(lines)
    spans = sorted([(0, head), (max(0, n - tail), n)] + [(max(0, a), a + k) for a, k in at if a < n])
    out, pos = [], 0
    for a, b in spans:
        a, b = max(a, pos), min(b, n)
        if a > pos:
            out.append(a - pos)
        if b > a:
            out += lines[a:b]
        pos = max(pos, b, a)
    return out


def run_one(binary, args, colour=0, timeout=20, cwd="/", keep=None):
    """One invocation: {args, col, out (lines), code, err, usg}. With keep, much is printed and part of it recorded."""
    around, colour = divmod(colour, 10)
    most = HUGE if keep else MAX_OUT
    timeout = 3 * timeout if keep else timeout
    more, name, given, size, where, program = (SURROUNDINGS[around] + (None, None))[:6]
    kinds = given.split() if isinstance(given, str) else []
    env = {} if more is None else dict(_ENV, **more)
    if colour == 1:
        env["CLICOLOR_FORCE"] = "1"
    master = slave = None
    if colour >= 2:
        env["TERM"] = "xterm-256color"
        if colour == 3:
            env["CLICOLOR"] = "0"
        try:
            master, slave = pty.openpty()
            tty.setraw(slave)
            if size:
                fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", *size, 0, 0))
        except OSError:         # no terminal to be had here
            return run_one(binary, args, 10 * around + COLOURED[colour], timeout, cwd)
    elif kinds[1:] == ["pipe"]:
        master, slave = os.pipe()
    if any("\0" in a for a in args) or sum(len(a) + 9 for a in args) > 1 << 20:
        raise ToolError("not arguments of a program: %r" % args[:5])
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe, tempfile.TemporaryFile() as fi:
        other = None
        if kinds[:1] == ["tty"]:
            try:
                other, stdin = pty.openpty()
            except OSError:
                stdin = os.open("/dev/null", os.O_RDONLY)
        elif kinds[:1] == ["dir"]:
            stdin = os.open("/", os.O_RDONLY)
        elif kinds[:1] == ["file"]:
            stdin = os.open(os.path.abspath(__file__), os.O_RDONLY)
        elif kinds:             # a pipe nothing comes out of
            stdin, x = os.pipe()
            os.close(x)
        else:
            fi.write(given)
            fi.seek(0)
            stdin = os.dup(fi.fileno()) if given else os.open("/dev/null", os.O_RDONLY)
        p = subprocess.Popen([binary if name is None else name] + args, executable=program or binary, stdin=stdin, stdout=fo if slave is None else slave, stderr=fe, env=env,
                             cwd=where or (cwd if not around else ("/dev", "/usr/bin", os.path.dirname(binary), "/tmp")[(around - 1) % 4]), preexec_fn=lambda: _limits(most))
        out = b""
        os.close(stdin)
        if slave is not None:
            os.close(slave)
            end = time.time() + timeout
            while len(out) < MAX_OUT and time.time() < end:
                if not select.select([master], [], [], 1)[0]:
                    continue
                try:
                    d = os.read(master, 65536)
                except OSError:
                    break
                if not d:
                    break
                out += d
        try:
            code = p.wait(timeout)
            if code < 0:
                code = 256 - code
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = 512
            HUNG.append(args)
        if master is None:
            fo.seek(0)
            out = fo.read(most)
        else:
            os.close(master)
        if other is not None:
            os.close(other)
        fe.seek(0)
        err = fe.read(65536)
    lines = out.split(b"\n")
    if lines[-1] == b"":
        lines.pop()
    # a last line without line break is not a line: mark it so that it equals no specified one
    elif out:
        lines[-1] += b"\x00"
    if keep:
        lines = keep_lines(lines, keep)
    usg = 1 if err.startswith(b"Usage:") or out.startswith(b"Usage:") else 0
    return {"args": args, "col": COLOURED[colour], "tty": colour, "around": around, "surroundings": repr(SURROUNDINGS[around])[:600], "out": [l if isinstance(l, int) else l.decode("latin-1") for l in lines], "code": code,
            "err": 1 if err else 0, "usg": usg, "stderr": err.decode("utf-8", "replace")[-400:]}


HUNG = []       # the runs that did not end


def run_many(binary, jobs):
    """jobs: list of (args, colour, which lines to keep). Runs them in parallel, results in order. Once some do not end, waits for others less."""
    with ThreadPoolExecutor(JOBS * 2) as ex:
        return list(ex.map(lambda j: run_one(binary, j[0], j[1], 20 if len(HUNG) < 5 else 1, keep=j[2] if len(j) > 2 else None), jobs))


def codes(s):
    return [ord(c) for c in s]


MAX_LINES, BUDGET, MAX_LINE = 10000, 250000, 4096     # of one run, of all runs together; characters of a line


def trace_record(i, r, limit=1 << 60):
    """A run as an element of a trace file; only its first lines are judged if there are more than limit."""
    return {"id": i, "args": [list(a.encode("utf-8")) for a in r["args"]], "col": r["col"],
            "out": [[-l] if isinstance(l, int) else codes(l[:MAX_LINE]) for l in r["out"][:limit]], "code": r["code"], "err": r["err"], "usg": r["usg"],
            "cut": 1 if len(r["out"]) > limit else 0, "lines": len(r["out"])}


def line_limit(runs):
    """How many lines of each run to judge. What the workloads ask of a correct program stays below it."""
    limit = MAX_LINES
    while limit > 100 and sum(min(limit, len(r["out"])) for r in runs) > BUDGET:
        limit = limit * 3 // 4
    return limit


def tlc(module, cfg, env=None, workers=1, heap="2g", timeout=800, extra=(), workdir=None, stack="64m"):
    """Runs TLC; returns (output, stats). Raises ToolError unless TLC finished or reported a property violation."""
    d = workdir or tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    meta = tempfile.mkdtemp(prefix="meta-", dir=scratch())
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss" + stack,
           "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + SPEC, "-cp", TLC_CP, "tlc2.TLC", "-config", cfg, "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", *extra, module]
    try:
        r = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        if workdir is None:
            shutil.rmtree(d, ignore_errors=True)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if not m:
        raise ToolError("TLC failed on %s:\n%s" % (module, out[-3000:]))
    st = {"generated": int(m.group(1)), "distinct": int(m.group(2)), "left": int(m.group(3)),
          "ok": "Model checking completed. No error has been found." in out, "rc": r.returncode}
    return out, st


def tool(cmd, timeout):
    """The output of some other tool."""
    try:
        return subprocess.run(cmd, cwd=scratch(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                              errors="replace").stdout
    except (OSError, subprocess.TimeoutExpired) as e:
        raise ToolError("%s: %s" % (cmd[0], e))


_scratch = None


def scratch():
    """A directory for this run's files; removed by cleanup()."""
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "work")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


FAULT = re.compile(r'<<\s*"FAULT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)


def _check(module, records, states, workers, heap, timeout):
    """Runs module over the records; returns (faults, stats). states: how many states there are if nothing is wrong."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=scratch())
    with os.fdopen(fd, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    out, st = tlc(module + ".tla", module + ".cfg", env={"TRACE": path}, heap=heap, workers=workers, timeout=timeout)
    os.unlink(path)
    if not st["ok"]:
        raise ToolError("TLC failed on recorded runs:\n" + out[-3000:])
    faults = [(int(a), int(b), set(re.findall(r'"([^"]+)"', c))) for a, b, c in FAULT.findall(out)]
    if out.count('"FAULT"') != len(faults):
        raise ToolError("unreadable fault report:\n" + out[-3000:])
    if st["distinct"] != states and not faults:
        raise ToolError("only %d of %d states of the recorded runs were visited" % (st["distinct"], states))
    return faults, st


def validate(runs, heap="6g", timeout=800):
    """Validates recorded runs against spec/Trace.tla. Returns (faults, stats); a fault is (run index, event, {clauses})."""
    if not runs:
        return [], {"generated": 0, "distinct": 0, "traces": 0}
    limit = line_limit(runs)
    size = [min(limit, len(r["out"])) for r in runs]
    n = 1 if len(runs) < 2 or sum(size) < 1500 else 2

    def one(k):
        mine = range(k, len(runs), n)
        return _check("Trace", (trace_record(i, runs[i], limit) for i in mine), sum(size[i] + 3 for i in mine),
                      JOBS // n, heap, timeout)
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    return sorted((f for fs, _ in res for f in fs), key=lambda f: f[:2]), {
        "generated": sum(s["generated"] for _, s in res), "distinct": sum(s["distinct"] for _, s in res), "traces": len(runs)}


# which runs of a group a claim is about
CLAIMS = {"links": lambda c: c[0] + c[1], "equal": lambda c: c, "names": lambda c: c, "ends": lambda c: c,
          "base": lambda c: [c[0]] + list(range(c[1], c[2] + 1)), "reads": lambda c: c[0], "members": lambda c: c[0] + c[1]}


def relate(groups, runs, heap="6g", timeout=800):
    """Validates groups of runs against spec/Relate.tla. Returns (faults, stats); a fault is (group index, step, {clauses})."""
    if not groups:
        return [], {"generated": 0, "distinct": 0, "traces": 0}
    recs = []
    limit = line_limit(runs)
    for i, (kind, clause, ids, more) in enumerate(groups):
        # claims about runs that print more than is judged are left out; these are judged by themselves
        cut = {k + 1 for k, j in enumerate(ids) if len(runs[j]["out"]) > limit}
        r = {"id": i, "kind": kind, "clause": clause, "runs": [trace_record(j, runs[j], limit) for j in ids]}
        for k, about in CLAIMS.items():
            r[k] = [c for c in more.get(k, []) if not cut & set(about(c))]
        recs.append(r)
    steps = {"same": lambda r: len(r["runs"]) + 1,
             "chain": lambda r: 1 + sum(len(r[k]) for k in CLAIMS)}
    return _check("Relate", recs, sum(steps[r["kind"]](r) for r in recs), JOBS, heap, timeout)
