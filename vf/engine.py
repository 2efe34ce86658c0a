"""The machinery shared by all checks: building the harness, running TLC, replaying, reporting."""
import os, re, sys, json, time, shutil, subprocess, tempfile, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "moka-verif")
OUT = os.path.join(VERIF, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class CheckError(Exception):
    pass


# --- building ---------------------------------------------------------------------------------

def cargo_env():
    e = dict(os.environ)
    home = os.path.expanduser("~/.cargo/bin")
    e["PATH"] = home + ":" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build():
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("the harness does not build:\n" + p.stdout[-4000:])


def setup():
    os.makedirs(OUT, exist_ok=True)
    from . import conc
    try:
        build()
        conc.build()
    except CheckError as e:
        print(e)
        return 2
    for m in sorted(os.listdir(SPEC)):
        if m.endswith(".tla"):
            p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", m], cwd=SPEC, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0 or "*** Errors" in p.stdout:
                print(p.stdout[-3000:])
                return 2
    print("ready")
    return 0


# --- TLC --------------------------------------------------------------------------------------

def cfg_text(spec, consts, invs=(), props=(), view=None, constraint=None, deadlock=False, actions=()):
    def val(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, int):
            return str(v)
        if isinstance(v, (set, frozenset, list, tuple)):
            return "{" + ", ".join(val(x) for x in sorted(v, key=str)) + "}"
        return '"%s"' % v
    t = "SPECIFICATION %s\n" % spec
    if consts:
        t += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, val(v)) for k, v in consts.items())
    t += "".join("INVARIANT %s\n" % i for i in invs)
    t += "".join("PROPERTY %s\n" % i for i in props)
    t += "".join("ACTION_CONSTRAINT %s\n" % i for i in actions)
    if view:
        t += "VIEW %s\n" % view
    if constraint:
        t += "CONSTRAINT %s\n" % constraint
    t += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return t


def tlc(work, name, module, cfg, workers=1, simulate=None, seed=1, timeout=600, heap=None, jit=None, env=None):
    """Runs TLC; returns (output lines printed with @@, stats, error text or None)."""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, module + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xss64m", "-Djava.io.tmpdir=" + d]
    cmd += ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    if jit or (simulate and jit is None):
        cmd += ["-XX:TieredStopAtLevel=1"]
    cmd += ["-Xmx" + (heap or ("1500m" if workers == 1 else "6g"))]
    cmd += ["-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "m"), "-workers", str(workers)]
    if simulate:
        num, depth = simulate
        cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    cmd += ["-config", c, module + ".tla"]
    t0 = time.time()
    outp = os.path.join(d, "out")
    with open(outp, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                                env=dict(os.environ, **(env or {}))).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    lines, text = [], []
    with open(outp) as f:
        for l in f:
            if l.startswith('"@@'):
                lines.append(json.loads(l)[2:])
            else:
                text.append(l)
    text = "".join(text)
    stats = {"states": 0, "transitions": 0, "seconds": round(time.time() - t0, 1), "complete": rc == 0}
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text)
    ms = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text) + \
        re.findall(r"(\d[\d,]*) states generated[^,]*, (\d[\d,]*) distinct states found", text)
    if ms:
        g, dst = ms[-1]
        stats["transitions"] = int(g.replace(",", ""))
        stats["states"] = int(dst.replace(",", ""))
    m = re.search(r"The number of states generated: (\d[\d,]*)", text)
    if m:
        stats["transitions"] = stats["states"] = int(m.group(1).replace(",", ""))
    err = None
    if rc == -1:
        err = "timeout"
    elif rc != 0:
        i = text.find("Error:")
        err = text[i if i >= 0 else -1500:][:6000]
    shutil.rmtree(d, ignore_errors=True)
    return lines, stats, err


# --- harness ----------------------------------------------------------------------------------

def harness(args, timeout=800, env=None):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    if env:
        e.update(env)
    try:
        p = subprocess.run([BIN] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return {"hung": True, "timeout": timeout}
    out = p.stdout.decode("utf8", "replace")
    last = out.strip().splitlines()[-1] if out.strip() else ""
    try:
        return json.loads(last)
    except ValueError:
        return {"crashed": p.returncode, "stderr": p.stderr.decode("utf8", "replace")[-3000:], "stdout": out[-2000:]}


# --- known findings ---------------------------------------------------------------------------

def known_findings(pid):
    """Lines `known: property=<id> match=<json> <what fails>`."""
    ks = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for l in open(path):
        m = re.match(r"known: property=(\S+) match=(\{.*?\}) (.*)", l.strip())
        if m:
            ks.append({"match": json.loads(m.group(2)), "what": m.group(3), "seen": False, "own": m.group(1) == pid})
    return ks


# --- a check ----------------------------------------------------------------------------------

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        os.makedirs(OUT, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="w-%s-" % pid, dir=OUT)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.parts, self.viol = [], [], []
        self.known = known_findings(pid)
        self.lock = threading.Lock()
        self.built = threading.Event()
        self.build_error = None
        self.other = {}
        self.nrep = 0

    def thorough(self):
        return self.tier == "thorough"

    def wait_build(self):
        self.built.wait()
        if self.build_error:
            raise CheckError(self.build_error)

    def note_tlc(self, what, stats, extra=None):
        with self.lock:
            self.states += stats["states"]
            self.transitions += stats["transitions"]
            self.parts.append(dict(part=what, **stats, **(extra or {})))

    def violation(self, what, replay):
        """Records a violation; `replay` is whatever lets it be run again."""
        with self.lock:
            if len(self.viol) >= 20:
                return
            self.nrep += 1
            d = os.path.join(OUT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.pid, self.nrep))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, what=what, **replay), f, indent=1)
            self.viol.append((what, path))

    def matches_known(self, d):
        hit = False
        for k in self.known:
            if all(d.get(x) == y for x, y in k["match"].items()):
                k["seen"] = hit = True
        return hit


def aspect_in(aspect, pats):
    for p in pats:
        if re.fullmatch(p, aspect):
            return True
    return False


def sim_source(run, src, pool_submit):
    """Behaviours of a simulation module of the specification, replayed on the real caches."""
    module = src.get("module", "MokaSim")
    n = src["n"][1 if run.thorough() else 0]
    depth = src.get("depth", 40)
    chunk = src.get("chunk", 40 if not run.thorough() else 250)
    jobs = []
    k = 0
    while n > 0:
        m = min(n, chunk)
        n -= m
        k += 1
        consts = dict(src.get("consts") or {})
        if module == "MokaSim":
            consts.update(Keys=frozenset(range(1, 9)), Profile=src["profile"], Depth=depth)
        else:
            consts.setdefault("Depth", depth)
        cfg = cfg_text(src.get("spec", "SimSpec"), consts, src.get("invs", ("Inv", "Emitted")), deadlock=False)
        name = "%s-%s-%d" % (module, src.get("profile", ""), k)
        h = int(hashlib.md5(name.encode()).hexdigest()[:6], 16)
        seed = run.seed * 1000003 + h
        jobs.append(pool_submit(tlc, run.work, name, module, cfg, simulate=(m, src.get("tdepth", depth + 2)), seed=seed,
                                timeout=src.get("timeout", 800)))
    label = "simulation %s %s" % (module, src.get("profile", ""))

    def finish():
        lines, tot = [], {"states": 0, "transitions": 0, "seconds": 0.0, "complete": True}
        for j in jobs:
            ls, st, err = j.result()
            if err:
                raise CheckError("TLC on %s: %s" % (label, err))
            lines += ls
            for x in ("states", "transitions"):
                tot[x] += st[x]
            tot["seconds"] = round(tot["seconds"] + st["seconds"], 1)
        run.note_tlc(label, tot, {"behaviours": len(lines)})
        if not lines:
            raise CheckError("no behaviours from " + label)
        replay(run, src, lines, label)
    return finish


def replay(run, src, lines, label):
    run.wait_build()
    cmd = src.get("cmd", "replay")
    path = os.path.join(run.work, re.sub(r"\W+", "-", label) + ".jsonl")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    for extra in src.get("modes", [[]]):
        r = harness([cmd] + extra + [path], timeout=src.get("rtimeout", 500))
        judge(run, src, r, label, lines, [cmd] + extra)
    with run.lock:
        if len(run.samples) < 4:
            run.samples.append({"source": label, "behaviour": short(lines[0])})


def short(line):
    try:
        b = json.loads(line)
    except ValueError:
        return line[:400]
    if isinstance(b, dict) and "steps" in b:
        out = []
        for s in b["steps"][:14]:
            try:
                o = s["op"]
                out.append("%s(k%s%s)%s->%s:%s" % (o["op"], o["k"], ",v%d" % o["v"]["n"] if o["v"]["n"] else "",
                           "@%d" % s["t"], s["res"]["r"], s["res"]["n"]))
            except (KeyError, TypeError):
                out.append(json.dumps(s)[:120])
        c = b.get("cfg", {})
        return {"cfg": {k: v for k, v in c.items() if k not in ("table", "seg")} if isinstance(c, dict) else c,
                "steps": out}
    return json.dumps(b)[:600]


def judge(run, src, r, label, lines, cmd):
    """Which of the mismatches the harness found concern this property."""
    if r.get("hung"):
        if src.get("hang_is_violation", True):
            run.violation("%s: the code under test did not finish" % label, {"cmd": cmd, "hang": True, "lines": lines[:400]})
            return
        raise CheckError("harness timed out on " + label)
    if "crashed" in r:
        # The process died: no check can tell what the code did then, other than not what it should.
        run.violation("%s: the process was killed or aborted (%s)" % (label, r["crashed"]),
                      {"cmd": cmd, "stderr": r["stderr"], "lines": lines[:400]})
        return
    with run.lock:
        run.traces += r["runs"]
        run.steps += r["steps"]
    pats = src["aspects"]
    unprobed = {m["behaviour"] for m in r["mismatches"] if m.get("probe") is False}
    for m in r["mismatches"]:
        # What goes wrong without probing as well is not the fault of the probes.
        if src.get("probe") and (not m.get("probe") or m["behaviour"] in unprobed):
            continue
        hits = []
        for d in m["diffs"]:
            if aspect_in(d["aspect"], pats):
                d2 = dict(d, kind=m.get("kind"))
                if not run.matches_known(d2):
                    hits.append(d)
            else:
                run.other[d["aspect"]] = run.other.get(d["aspect"], 0) + 1
        if hits:
            h = hits[0]
            run.violation("%s: behaviour %s on %s, step %s, %s: specified %s, observed %s" % (
                label, m["behaviour"], m.get("kind"), h.get("step"), h["aspect"],
                json.dumps(h["want"])[:300], json.dumps(h["got"])[:300]),
                {"cmd": cmd, "mismatch": m, "line": lines[m["behaviour"]] if m["behaviour"] < len(lines) else None})


def mc_source(run, src, pool_submit):
    tier = 1 if run.thorough() else 0
    consts = {k: (v[tier] if isinstance(v, tuple) and len(v) == 2 else v) for k, v in src["consts"].items()}
    cfg = cfg_text(src.get("spec", "MCSpec"), consts, src.get("invs", ("Inv",)), src.get("props", ()),
                   src.get("view", "View"), src.get("constraint"), src.get("deadlock", False))
    label = "exhaustive %s %s" % (src["module"], src.get("name", ""))
    w = src.get("workers", (2, 4))[tier]
    j = pool_submit(tlc, run.work, re.sub(r"\W+", "-", label), src["module"], cfg, workers=w,
                    timeout=src.get("timeout", (500, 3000))[tier], heap=src.get("heap", ("5g", "12g"))[tier], jit=False)

    def finish():
        lines, st, err = j.result()
        if err:
            # The specification itself breaks the property: the model was wrong or was changed.
            raise CheckError("%s: %s" % (label, err))
        run.note_tlc(label, st, {"consts": {k: str(v) for k, v in consts.items()}})
        if src.get("replay"):
            replay(run, src, lines, label)
    return finish


def drive_source(run, src, pool_submit):
    """A harness command that records traces of the real code, to be validated."""
    fn = src["fn"]

    def finish():
        run.wait_build()
        fn(run, src)
    return finish


def check(pid, sources, tier, seed, only=None):
    from . import conc
    run = Run(pid, tier, seed)
    level = "model_checking"
    rc = 0
    try:
        def b():
            try:
                build()
                if any(s["kind"] == "conc" for s in sources):
                    conc.build()
            except Exception as e:  # noqa
                run.build_error = str(e)
            run.built.set()
        th = threading.Thread(target=b)
        th.start()
        slots = max(2, CORES)
        with ThreadPoolExecutor(max_workers=slots) as pool:
            finishers = []
            for src in sources:
                if only and src["kind"] != only:
                    continue
                if src.get("tier") and src["tier"] != tier:
                    continue
                f = {"sim": sim_source, "mc": mc_source, "drive": drive_source, "conc": conc.source}[src["kind"]]
                finishers.append(f(run, src, pool.submit))
            for f in finishers:
                f()
        th.join()
        if run.build_error:
            raise CheckError(run.build_error)
    except CheckError as e:
        print("CHECK FAILED (no verdict): %s" % e)
        rc = 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    if run.viol:
        rc = 1
    for k in run.known:
        if k["seen"] and k["own"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "states": run.states, "transitions": run.transitions,
            "traces_validated_against_impl": run.traces,
            "steps_replayed_on_impl": run.steps,
            "samples": run.samples or ["none"],
            "parts": run.parts,
            "mismatches_of_other_properties": run.other,
        },
        "assumptions": ["TLC, the Java runtime, rustc and the harness are trusted",
                        "exhaustive within the stated scopes; random behaviours beyond them"],
        "wall_s": round(time.time() - run.t0, 1), "violations": len(run.viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what, path in run.viol:
        print("  " + what)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s: %d states, %d transitions, %d traces on the implementation, %.1f s, exit %d" % (
        pid, tier, run.states, run.transitions, run.traces, time.time() - run.t0, rc))
    return rc


def replay_file(path):
    with open(path) as f:
        r = json.load(f)
    print(r["what"])
    if r.get("conc"):
        from . import conc
        return conc.replay_file(r)
    build()
    lines = [r["line"]] if r.get("line") else r.get("lines") or []
    if r.get("cmd") and lines:
        with tempfile.NamedTemporaryFile("w", suffix=".jsonl", delete=False) as f:
            f.write("\n".join(lines) + "\n")
        out = harness(r["cmd"] + [f.name])
        os.unlink(f.name)
        print(json.dumps(out, indent=1)[:8000])
        return 1 if out.get("mismatches") or "runs" not in out else 0
    print(json.dumps(r, indent=1)[:8000])
    return 1
