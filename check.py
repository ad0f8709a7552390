#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py C01 [quick|thorough]

Glue only.  Every expectation lives in spec/*.tla and is evaluated by TLC:
  1. design   TLC explores the module's design model exhaustively
  2. emit     TLC writes scenarios: one per transition of a model, every
              initial state of an input model, or random behaviours (-simulate)
  3. run      a driver built from /repo's working tree performs them
  4. validate TLC checks the recorded events against the trace specification
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, "spec")
BUILD = os.environ.get("F2C_BUILD", os.path.join(V, "build"))
EVIDENCE = os.path.join(BUILD if "F2C_BUILD" in os.environ else V, "evidence")
CPUS = os.cpu_count() or 4
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402


class Broken(Exception):
    pass


def sh(cmd, timeout, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def drivers(c):
    return {c["driver"]} | {g["driver"] for g in c["gen"] if "driver" in g}


def build(*names):
    repo = os.environ.get("F2C_REPO", "/repo")
    bdir = os.path.join(BUILD, "bin")
    os.makedirs(bdir, exist_ok=True)
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        r = sh(["cmake", "-S", os.path.join(V, "harness"), "-B", bdir, "-G", "Ninja",
                "-DCMAKE_BUILD_TYPE=None", "-DREPO=" + repo], 300)
        if r.returncode:
            raise Broken("cmake failed:\n" + r.stdout[-3000:])
    r = sh(["ninja", "-C", bdir] + list(names), 800)
    if r.returncode:
        raise Broken("build of the driver from /repo failed:\n" + r.stdout[-4000:])
    return {d: os.path.join(bdir, d) for d in names}


def tlc(work, cfg, mod, extra=(), env=None, workers=1, timeout=800, heap="2g"):
    """Runs TLC in its own metadir; returns (exit, output)."""
    meta = os.path.join(work, "meta-%s-%d" % (os.path.basename(cfg), random.getrandbits(48)))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Djava.io.tmpdir=%s" % (heap, meta)
    e.update(env or {})
    cmd = ["tlc", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, mod)]
    try:
        r = sh(cmd, timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise Broken("TLC did not finish in %d s on %s" % (timeout, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def printed(out, prefix=None):
    """The strings TLC printed with PrintT."""
    for line in out.split("\n"):
        if line.startswith('"') and line.endswith('"'):
            try:
                s = json.loads(line)
            except ValueError:
                # TLC prints a string's characters unescaped except quotes
                s = line[1:-1].replace('\\"', '"')
            if prefix is None or s.startswith(prefix):
                yield s


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    if m:
        a, b = m[-1]
        return int(a.replace(",", "")), int(b.replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        return int(m[-1].replace(",", "")), 0
    return 0, 0


def execute(drv, args, scen_file, out_file, log, total, limit):
    """Runs the driver over all scenarios, restarting behind every crash."""
    first, crashes, t0 = 0, 0, time.time()
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:"
                           "allocator_may_return_null=1:detect_odr_violation=0")
    env["GDAL_DATA"] = env.get("GDAL_DATA", "")
    if not env["GDAL_DATA"]:
        del env["GDAL_DATA"]
    env["VERIF_SCRATCH"] = os.path.dirname(out_file)
    while True:
        with open(log, "a") as lf:
            p = subprocess.run([drv, scen_file, out_file, str(first)] + args,
                               stdout=lf, stderr=lf, env=env, timeout=limit)
        if p.returncode == 0:
            return crashes
        if p.returncode in (2, 3):
            raise Broken("driver error, see " + log + "\n" + open(log).read()[-1500:])
        # the scenario under way is the last one begun
        data = open(out_file, "rb").read()
        cut = data.rfind(b"\n") + 1
        if cut != len(data):
            with open(out_file, "wb") as f:
                f.write(data[:cut])
        begun = data[:cut].count(b'"op":"begin"')
        with open(out_file, "a") as f:
            f.write(json.dumps({"op": "crash", "x": "", "code": p.returncode}) + "\n")
        crashes += 1
        first = begun
        if first >= total:
            return crashes
        if crashes > 200 or time.time() - t0 > limit / 3:
            return crashes


def run_scenarios(prop, c, drvs, work, scen, tag, tier):
    """Executes and validates scenarios; returns (bads, events)."""
    shards, who = [], []
    for d in sorted({s["drv"] for s in scen}):
        part = [s for s in scen if s["drv"] == d]
        n = max(1, min(CPUS, len(part) // 8 or 1))
        shards += [part[i::n] for i in range(n)]
        who += [d] * n
    n = len(shards)
    limit = 700

    def one(i):
        sf = os.path.join(work, "%s-%d.scn" % (tag, i))
        of = os.path.join(work, "%s-%d.ndjson" % (tag, i))
        with open(sf, "w") as f:
            for s in shards[i]:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        open(of, "w").close()
        crashes = execute(drvs[who[i]], c.get("args", []), sf, of, of + ".log", len(shards[i]), limit)
        lines = sum(1 for _ in open(of))
        for _ in range(2):
            rc, out = tlc(work, c["trace"] + ".cfg", c["trace"] + ".tla",
                          env={"TRACE": of}, timeout=limit, heap="3g")
            if rc not in (-9, 137):  # ended from outside: try again
                break
            time.sleep(5)
        bads = [json.loads(s[4:]) for s in printed(out, "BAD ")]
        done = [s for s in printed(out, "CONSUMED ")]
        if not done or done[-1] != "CONSUMED %d OF %d" % (lines, lines):
            # the specification could not even read the answer: which event?
            m = re.findall(r"\bl = (\d+)", out)
            sc = re.findall(r"\bscn = (\d+)", out)
            if m and sc and ("Error: " in out):
                bads.append({"scn": int(sc[-1]), "line": int(m[-1]), "op": "?", "prop": "*",
                             "why": "answer has a shape the specification cannot read"})
                with open(of + ".tlc", "w") as f:
                    f.write(out)
            else:
                raise Broken("trace validation did not complete:\n" + out[-3000:])
        return bads, lines, crashes, of

    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, range(n)))
    bads = [dict(b, trace=r[3]) for r in res for b in r[0]]
    return bads, sum(r[1] for r in res), sum(r[2] for r in res), res[0][3]


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    return out


def main():
    prop = sys.argv[1]
    if prop == "setup":
        build(*sorted({d for c in CHECKS.values() for d in drivers(c)}))
        print("setup done")
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    t0 = time.time()
    rng = random.Random(seed * 7919 + int(prop[1:]))
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    thorough = tier == "thorough"

    def pick(x):
        return x[1] if thorough and isinstance(x, (tuple, list)) else x[0] if isinstance(x, (tuple, list)) else x

    pool = ThreadPoolExecutor(4)
    f_build = pool.submit(build, *drivers(c))
    states = transitions = 0
    design_notes, samples = [], []
    # 1. design
    def design(d):
        rc, out = tlc(work, d["cfg"], d["mod"], workers=max(2, CPUS // 2), timeout=800, heap="6g")
        return d, rc, out
    ds = [d for d in c.get("design", []) if thorough or not d.get("thorough")]
    f_design = [pool.submit(design, d) for d in ds]
    # 2. scenarios
    scen, sources = [], []
    def emit(g):
        if g["kind"] == "sim":
            num = pick(g["num"])
            extra = ["-simulate", "num=%d" % num, "-depth", str(g["depth"] + 1), "-seed", str(seed + 1000 * g.get("seed", 0))]
            rc, out = tlc(work, g["cfg"], g["mod"], extra, workers=1, timeout=600, heap="3g")
            got = [json.loads(s) for s in printed(out, "{")]
            want = num
        else:
            extra = ["-seed", str(seed)]
            rc, out = tlc(work, g["cfg"], g["mod"], extra, workers=g.get("workers", 2), timeout=600, heap="6g")
            got = [json.loads(s) for s in printed(out, "{")]
        if ("Error:" in out and g["kind"] != "sim") or not got:
            raise Broken("scenario generation failed (%s):\n%s" % (g["cfg"], out[-3000:]))
        if "Error:" in out:
            raise Broken("scenario generation failed (%s):\n%s" % (g["cfg"], out[-3000:]))
        return g, got, stats(out)
    gens = [g for g in c["gen"] if thorough or not g.get("thorough")]
    for g, got, st in pool.map(emit, gens):
        n_all = len(got)
        cap = pick(g.get("cap", 10 ** 9))
        if n_all > cap:
            got.sort(key=lambda s: json.dumps(s, sort_keys=True))
            got = rng.sample(got, cap)
        states += st[1]
        transitions += st[0]
        for s in got:
            s["drv"] = g.get("driver", c["driver"])
        sources.append({"cfg": g["cfg"], "kind": g["kind"], "generated": n_all, "run": len(got)})
        scen += got
    for i, s in enumerate(scen):
        s["id"] = i
    opcount, distinct = {}, set()
    for s in scen:
        for o in s["ops"]:
            opcount[o["op"]] = opcount.get(o["op"], 0) + 1
            distinct.add(hash(json.dumps(o, sort_keys=True)))
    if len(distinct) < min(20, len(scen)):
        raise Broken("the generated operations hardly vary: %s" % opcount)
    for f in f_design:
        d, rc, out = f.result()
        a, b = stats(out)
        states += b
        transitions += a
        bad = "Error:" in out or "No error has been found" not in out
        if d.get("expect_violation"):
            if "is violated" not in out:
                raise Broken("design mutant %s was not rejected:\n%s" % (d["cfg"], out[-2000:]))
        elif bad:
            raise Broken("design model %s failed:\n%s" % (d["cfg"], out[-3000:]))
        design_notes.append({"cfg": d["cfg"], "transitions": a, "distinct": b,
                             "verdict": "violated as expected" if d.get("expect_violation") else "holds"})
    drvs = f_build.result()
    t_gen = time.time() - t0
    # 3 + 4
    bads, events, crashes, sample_file = run_scenarios(prop, c, drvs, work, scen, "run", tier)
    mine = [b for b in bads if b["prop"] in ("*", prop)]
    other = [b for b in bads if b["prop"] not in ("*", prop)]
    known, fresh = [], []
    kf = known_findings(prop)
    for b in mine:
        body = json.dumps(scen[b["scn"]].get("ops"), sort_keys=True)
        dig = hashlib.sha256(body.encode()).hexdigest()[:16]
        hit = next((k for k in kf if matches(k, b, scen[b["scn"]], dig)), None)
        (known if hit else fresh).append((b, hit))
    # confirm on a second execution of the rejected scenarios
    if fresh:
        ids = sorted({b["scn"] for b, _ in fresh})[:40]
        again = [scen[i] for i in ids]
        b2 = run_scenarios(prop, c, drvs, work, again, "confirm", tier)[0]
        ok = {b["scn"] for b in b2 if b["prop"] in ("*", prop)}
        fresh = [x for x in fresh if x[0]["scn"] in ok]
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    n_ok = len(scen) - len({b["scn"] for b in bads})
    with open(sample_file) as f:
        for i, line in enumerate(f):
            if 0 < i <= 3:
                samples.append(json.loads(line))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions,
            "traces_validated_against_impl": n_ok,
            "scenarios_run": len(scen), "events_checked": events,
            "scenarios_rejected": len({b["scn"] for b in bads}),
            "crashes_observed": crashes,
            "operations": opcount, "distinct_operations": len(distinct),
            "design_models": design_notes, "scenario_sources": sources,
            "samples": samples,
        },
        "wall_s": round(time.time() - t0, 1),
        "violations": len(fresh),
        "assumptions": c.get("assumptions", []),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d scenarios, %d events, %d rejected (%d by other properties), design %s, gen %.0fs, total %.0fs"
          % (prop, tier, len(scen), events, len(mine), len(other),
             [x["cfg"] for x in design_notes], t_gen, time.time() - t0))
    if other:
        print("note: rejected under other properties:", sorted({b["prop"] + " " + b["why"] for b in other})[:6])
    if fresh:
        seen = {}
        for b, _ in fresh:
            seen.setdefault((b["op"], b["why"]), []).append(b)
        replay = os.path.join(BUILD, "replay-%s.json" % prop)
        with open(replay, "w") as f:
            json.dump([{"why": w, "op": o, "count": len(v), "scenario": scen[v[0]["scn"]],
                        "event": event_at(v[0])}
                       for (o, w), v in seen.items()], f, indent=1)
        for (o, w), v in seen.items():
            print("  rejected: op=%s %s (%d scenarios), e.g. event %s" %
                  (o, w, len(v), json.dumps(event_at(v[0]))[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def event_at(b):
    try:
        with open(b["trace"]) as f:
            for i, line in enumerate(f, 1):
                if i == b["line"]:
                    return json.loads(line)
    except (OSError, ValueError):
        pass
    return None


def matches(k, b, scenario, digest):
    """A listed finding names the exact scenario (digest of its operations) or
    an operation with exact arguments."""
    if "digest" in k and digest in k["digest"] and k.get("why", b["why"]) == b["why"]:
        return True
    if "event" in k and k.get("why") == b["why"]:
        e = event_at(b) or {}
        return all(e.get(x) == y for x, y in k["event"].items())
    return False


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK ERROR:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR: timeout", e)
        sys.exit(2)
