"""Concurrent programs: drawn by TLC (MokaProg), run on the real caches under a deterministic scheduler
(harness/conc), and the histories judged by TLC against the contract (MokaLin)."""
import os, re, json, shutil, subprocess, collections, tempfile
from . import engine as E

CONC = os.path.join(E.HARNESS, "conc")
BIN = os.path.join(CONC, "target", "x86_64-unknown-linux-gnu", "debug", "moka-conc")
KINDS = {"cancel": "async,future", "fillcancel": "async,future", "seg": "seg", "mix": "sync,async,future,seg"}
FINAL = ["ev", "live", "ec", "ws", "cap", "gone"]


def build():
    e = E.cargo_env()
    e["RUSTC_BOOTSTRAP"] = "1"
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=CONC, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise E.CheckError("the concurrent harness does not build:\n" + p.stdout[-4000:])


def programs(work, profile, count, seed):
    cfg = E.cfg_text("Spec", dict(Profile=profile, Count=count), ("Emitted",))
    lines, st, err = E.tlc(work, "prog-%s-%d" % (profile, seed), "MokaProg", cfg, simulate=(1, 2), seed=seed)
    if err:
        raise E.CheckError("TLC on MokaProg %s: %s" % (profile, err))
    lines = sorted(set(lines))
    if not lines:
        raise E.CheckError("no programs of profile " + profile)
    return lines


def execute(work, pfile, name, kinds, schedules, seed, each, most, timeout=150, extra=()):
    """Runs the programs of a file, a part on each core. Returns the reports and the histories."""
    n = E.CORES
    ps = []
    for i in range(n):
        h = os.path.join(work, "%s.h%d" % (name, i))
        cmd = [BIN, pfile, "--schedules", str(schedules), "--seed", str(seed), "--kinds", kinds, "--each", str(each),
               "--most", str(most), "--out", h, "--shard", "%d/%d" % (i, n)] + list(extra)
        if shutil.which("taskset") and n > 1:
            cmd = ["taskset", "-c", str(i)] + cmd
        ps.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE), h))
    reps, hists = [], []
    for p, h in ps:
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            reps.append({"hung": True, "timeout": timeout})
            continue
        text = out.decode("utf8", "replace").strip()
        try:
            reps.append(json.loads(text.splitlines()[-1]))
        except (ValueError, IndexError):
            reps.append({"crashed": p.returncode, "stderr": err.decode("utf8", "replace")[-2000:], "stdout": text[-1000:]})
        if os.path.exists(h):
            with open(h) as f:
                hists += [l.rstrip("\n") for l in f if l.strip()]
            os.unlink(h)
    return reps, hists


def judge_histories(work, name, pfile, hists, timeout=800):
    """Which histories the specification does not accept: [(index, aspect, position)], and the flags of those it does."""
    hf = os.path.join(work, name + ".hist")
    env = {"PROGS": pfile, "HISTS": hf}

    def lin(hs, diag, tag):
        with open(hf, "w") as f:
            f.write("\n".join(hs) + "\n")
        cfg = E.cfg_text("Spec", dict(Diag=diag, Lenient=True), ("Accepted",))
        return E.tlc(work, name + tag, "MokaLin", cfg, workers=E.CORES, timeout=timeout, jit=False, heap="6g", env=env)
    lines, st, err = lin(hists, False, "lin")
    if err:
        raise E.CheckError("TLC on MokaLin (%s): %s" % (name, err))
    flags = {}
    for x in lines:
        a = x.split()
        i, f = int(a[0]) - 1, tuple(a[1:])
        if i not in flags or len(f) < len(flags[i]):
            flags[i] = f
    bad = [i for i in range(len(hists)) if i not in flags]
    out = []
    if bad:
        some = bad[:200]
        lines, st2, err = lin([hists[i] for i in some], True, "diag")
        if err:
            raise E.CheckError("TLC on MokaLin (%s, diagnosis): %s" % (name, err))
        far = collections.defaultdict(list)
        for x in lines:
            m = re.match(r"(\d+) (\d+) (.*)", x)
            if m:
                far[int(m[1]) - 1].append((int(m[2]), m[3]))
        for j, i in enumerate(some):
            ev = json.loads(hists[i])["ev"]
            pos = max((x[0] for x in far[j]), default=1)
            e = ev[pos - 1]
            call = [y for y in ev[:pos - 1] if y["t"] == e["t"] and y["e"] == "c"]
            op = call[-1]["s"] if call else ""
            if e["e"] == "f":
                why = max((x[1] for x in far[j] if x[0] == pos), key=lambda z: z.count("TRUE"), default="")
                fs = [FINAL[k] for k, b in enumerate(re.findall(r"TRUE|FALSE", why)) if b == "FALSE"]
                asp = "lin:f:" + ("+".join(fs) or "any")
            elif e["e"] in "rij":
                asp = "lin:%s:%s" % (e["e"], op)
            else:
                asp = "lin:" + e["e"]
            out.append((i, asp, pos))
    os.unlink(hf)
    return out, len(bad), flags, st


def show(prog, h, pos=None):
    f = lambda o: "%s(k%d%s%s)" % (o["op"], o["k"], ",v%d" % o["v"]["n"] if o["v"]["n"] else "",
                                   ",%s" % o["o"] if o["o"] else "")
    c = {k: v for k, v in prog["cfg"].items() if k not in ("table", "seg")}
    out = ["%s, schedule %s, %s" % (h.get("kind"), h.get("sch"), json.dumps(c)),
           "before: " + " ".join(f(o) for o in prog["pre"])]
    out += ["thread %d: " % (i + 1) + " ".join(f(o) for o in t) for i, t in enumerate(prog["th"])]
    out.append("after: " + " ".join(f(o) for o in prog["post"]))
    for j, e in enumerate(h["ev"], 1):
        out.append("%3d%s %st%d %s %s k%d v%d %s" % (j, "*" if j == pos else " ", "   " * e["t"], e["t"], e["e"], e["s"], e["k"],
                                                     e["n"], {k: v for k, v in e.items() if k not in "etskn"} or ""))
    return out


def source(run, src, pool_submit):
    profile = src["profile"]
    tier = 1 if run.thorough() else 0
    batches, count, schedules, each, most = src.get("size", ((1, 130, 160, 2, 700), (10, 300, 500, 4, 3000)))[tier]
    kinds = src.get("kinds") or KINDS.get(profile, "sync,async")
    label = "concurrent %s" % profile
    own = int(re.sub(r"\D", "", run.pid) or 0) * 100     # (each check draws its own)
    jobs = [pool_submit(programs, run.work, profile, count, run.seed * 1009 + b * 7 + own) for b in range(batches)]

    def finish():
        tot = {"states": 0, "transitions": 0, "seconds": 0.0, "complete": True}
        ex = collections.Counter()
        for b, j in enumerate(jobs):
            lines = j.result()
            run.wait_build()
            name = "conc-%s-%d" % (profile, b)
            pfile = os.path.join(run.work, name + ".prog")
            with open(pfile, "w") as f:
                f.write("\n".join(lines) + "\n")
            seed = run.seed * 31 + b + own
            how = {"conc": True, "kinds": kinds, "seed": seed}
            reps, hists = execute(run.work, pfile, name, kinds, schedules, seed, each, most)
            for r in reps:
                if "hung" in r or "crashed" in r:
                    run.violation("%s: the process hung or died (%s)" % (label, json.dumps(r)[:300]), dict(how, lines=lines, report=r))
                    continue
                ex["runs"] += r["runs"]
                ex["points"] += r["points"]
                with run.lock:
                    run.traces += r["runs"]
                    run.steps += r["steps"]
                for m in r["mismatches"]:
                    a = m["diffs"][0]["aspect"]
                    d = dict(m["diffs"][0], kind=m["kind"], profile=profile)
                    if not E.aspect_in(a, src["aspects"]):
                        run.other[a] = run.other.get(a, 0) + 1
                    elif not run.matches_known(d):
                        p = json.loads(lines[m["behaviour"]])
                        run.violation("%s: program %d: %s: %s, expected %s" % (label, m["behaviour"], a, m["diffs"][0]["got"], m["diffs"][0]["want"]),
                                      dict(how, line=lines[m["behaviour"]], index=m["behaviour"], schedule=m["schedule"], kind=m["kind"],
                                           show=show(p, {"kind": m["kind"], "sch": m["schedule"], "ev": m["events"]})))
            ex["histories"] += len(hists)
            if not hists:
                continue
            bad, nbad, flags, st = judge_histories(run.work, name, pfile, hists)
            for x in ("states", "transitions"):
                tot[x] += st[x]
            tot["seconds"] = round(tot["seconds"] + st["seconds"], 1)
            ex["rejected"] += nbad
            for i, fs in flags.items():
                for f in fs:
                    ex["flag " + f] += 1
                    d = {"aspect": "lin:" + f, "profile": profile}
                    if E.aspect_in(d["aspect"], src["aspects"]) and not run.matches_known(d):
                        bad.append((i, d["aspect"], None))
            for i, a, pos in bad:
                h = json.loads(hists[i])
                if not E.aspect_in(a, src["aspects"]):
                    run.other[a] = run.other.get(a, 0) + 1
                    continue
                p = json.loads(lines[h["p"]])
                run.violation("%s: program %d on %s, schedule %d: the history cannot be explained (%s at event %s)" % (
                    label, h["p"], h["kind"], h["sch"], a, pos),
                    dict(how, line=lines[h["p"]], index=h["p"], schedule=h["sch"], kind=h["kind"], show=show(p, h, pos)))
            with run.lock:
                if len(run.samples) < 6:
                    h = json.loads(hists[len(hists) // 2])
                    run.samples.append({"source": label, "history": show(json.loads(lines[h["p"]]), h)[:30]})
        run.note_tlc(label + ": histories judged by MokaLin", tot, dict(ex))
    return finish


def replay_file(r):
    build()
    os.makedirs(E.OUT, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w-replay-", dir=E.OUT)
    try:
        pfile = os.path.join(work, "p")
        lines = [r["line"]] if r.get("line") else r["lines"]
        with open(pfile, "w") as f:
            f.write("\n".join(lines) + "\n")
        n = r.get("schedule", 400)
        extra = ["--base", str(r["index"]), "--schedule", str(n)] if r.get("line") else []
        reps, hists = execute(work, pfile, "replay", r.get("kind") or r["kinds"], n + 1, r["seed"], 1000, 1000, extra=extra)
        print(json.dumps([x for x in reps if x.get("runs") or "runs" not in x])[:3000])
        bad = [x for x in reps if "runs" not in x or x["mismatches"]]
        if hists:
            b, nb, flags, _ = judge_histories(work, "replay", pfile, hists)
            for i, a, pos in b:
                h = json.loads(hists[i])
                print("not accepted: %s at event %d" % (a, pos))
                print("\n".join(show(json.loads(lines[h["p"]]), h, pos)))
            bad += b + [f for f in flags.values() if f]
            print("flags:", sorted({x for f in flags.values() for x in f}))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
