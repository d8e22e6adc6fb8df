#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--replay FILE]

1. rebuilds the conformance harness against the crates in /repo's working tree;
2. runs TLC on the property's specifications: their invariants and temporal properties are checked,
   and every reached state (or behaviour) that is a test of the implementation is printed;
3. replays all of those through the real code (harness/), and checks each answer against the
   specification's; for the specifications with recorded traces, TLC then checks those as well;
4. writes evidence/ID.json; prints a VIOLATION line per property and exits 1 if the code disagreed.

Exit 0: held. Exit 1: violated. Exit 2: the check itself could not run.
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks.table import PROPS, SPECS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


class Broken(Exception):
    """The machinery, rather than the property, failed."""


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              timeout=timeout, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        raise Broken(f"{cmd[0]} did not finish within {timeout} s") from e


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(crate):
    """Returns the harness's binary, built from the current sources."""
    d = os.path.join(HERE, crate)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    stamp = os.path.join(HERE, "target", crate + ".sources")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        # cargo goes by modification times, which copies of a tree need not keep in order
        meta = sh(["cargo", "metadata", "--offline", "--format-version", "1"], 120, cwd=d, env=env)
        names = []
        try:
            packages = json.loads(meta.stdout[meta.stdout.index("{"):])["packages"]
            names = [p["id"] for p in packages if p["source"] is None]
        except (ValueError, KeyError):
            pass
        for n in names:
            sh(["cargo", "clean", "--release", "--offline", "-p", n], 120, cwd=d, env=env)
    r = sh(["cargo", "build", "--release", "--offline"], 850, cwd=d, env=env)
    if r.returncode != 0:
        raise Broken("the harness does not build against /repo:\n" + r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(HERE, "target", "release", "conf" if crate == "harness" else crate)


def tlc(work, name, module, cfg, args, workers, env=None, timeout=800):
    """Runs TLC; returns its output file, and (states, transitions)."""
    meta = os.path.join(work, "states-" + name)
    out = os.path.join(work, name + ".out")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx3g", "-Xss16m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=os.path.join(HERE, "specs"), stdout=f, stderr=subprocess.STDOUT,
                                timeout=timeout, env=dict(os.environ, **(env or {}))).returncode
        except subprocess.TimeoutExpired as e:
            raise Broken(f"TLC on {module}/{cfg} did not finish within {timeout} s") from e
    gen = dist = 0
    with open(out) as f:
        for line in f:
            if line.startswith('"VEC'):
                continue
            m = re.match(r"^([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
            m = re.match(r"^The number of states generated: ([\d,]+)", line)
            if m:
                gen = int(m.group(1).replace(",", ""))
    return rc, out, gen, dist


def run_job(work, i, job, seed, thorough):
    """One TLC run of a specification; its invariants must hold, they say nothing about the code."""
    cfg = job["cfg"] + ".cfg"
    if "sim" in job:
        num = job["sim"][1 if thorough else 0]
        args = ["-simulate", f"num={num}", "-depth", str(job["depth"]), "-seed", str(seed * 1000 + i)]
        workers = 1
    else:
        if thorough and job.get("cfg_thorough"):
            cfg = job["cfg_thorough"] + ".cfg"
        # the seed matters to specifications with random constants
        args, workers = ["-seed", str(seed * 1000 + i), "-fp", "0"], job.get("workers", 2)
    rc, out, gen, dist = tlc(work, f"{i}-{job['cfg']}", job["module"], cfg, args, workers,
                              timeout=6000 if thorough else 800)
    if rc != 0:
        with open(out) as f:
            text = "".join(l for l in f if not l.startswith('"VEC'))
        raise Broken(f"TLC exited {rc} on {job['module']}/{cfg}:\n{text[max(text.find('Error:'), 0):][:3000]}")
    return {"module": job["module"], "cfg": cfg, "mode": "simulate" if "sim" in job else "exhaustive",
            "states_generated": gen, "distinct_states": dist, "out": out}


def check_traces(work, prop, rep):
    """TLC decides whether the recorded behaviours of the real code are behaviours of the specification."""
    fails, events, states, transitions = [], 0, 0, 0

    def one(a):
        n, tr = a
        spec = prop["trace_spec"]
        return tr, tlc(work, f"trace{n}", spec["module"], spec["cfg"] + ".cfg", [], 1, env={"TRACE_FILE": tr["file"]})

    with ThreadPoolExecutor(6) as pool:
        for tr, (rc, out, gen, dist) in pool.map(one, enumerate(rep.get("traces", []))):
            states += dist
            transitions += gen
            if rc == 0:
                events += tr["events"]
                continue
            text = "".join(l for l in open(out) if not l.startswith('"VEC'))
            # 10: the postcondition is false, 11: deadlock, 12/13: an invariant or a property is violated
            if rc not in (10, 11, 12, 13) or rc == 10 and "Postcondition Accepted" not in text:
                raise Broken(f"TLC exited {rc} on a trace:\n{text[-4000:]}")
            m = re.search(r"depth of the complete state graph search is (\d+)", text)
            at = int(m.group(1)) if m else 0
            with open(tr["file"]) as f:
                lines = f.read().splitlines()
            vector = next(v for start, v in reversed(tr["starts"]) if start <= max(at - 1, 0))
            fails.append({"key": "trace", "index": 0, "vector": vector, "what":
                          f"no behaviour of {prop['trace_spec']['module']} fits the recorded one at event {at}: "
                          + " ".join(lines[max(at - 3, 0):at + 1])})
    return fails, events, states, transitions


def load_known(pid):
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"^known: property=(\S+) key=(\S+) vector=(\{.*\}) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), json.dumps(json.loads(m.group(3)), sort_keys=True), m.group(4)))
    return known


def main():
    t0 = time.time()
    argv = sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--replay":
            replay = argv[i + 1]
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
        i += 2
    tier = "thorough" if tier == "thorough" else "quick"
    thorough = tier == "thorough"
    prop = PROPS[pid]
    work = os.path.join(HERE, "work", pid)
    sh(["rm", "-rf", work], 60)
    os.makedirs(work)
    crate = prop.get("crate", "harness")
    reps = prop["reps"][1 if thorough else 0]

    if replay:
        with open(replay) as f:
            rp = json.load(f)
        binary = build(crate)
        vec = os.path.join(work, "replay.vec")
        with open(vec, "w") as f:
            f.write(json.dumps(rp["vector"]) + "\n")
        out = os.path.join(work, "report.json")
        r = sh([binary, rp["runner"], "--vec", vec, "--out", out, "--seed", str(rp["seed"]),
                "--reps", str(rp["reps"]), "--dir", work, "--traces", str(min(1, prop.get("traces", (0, 0))[0]))], 600)
        if r.returncode != 0:
            raise Broken(r.stdout)
        with open(out) as f:
            rep = json.load(f)
        fails = rep["fails"] + check_traces(work, prop, rep)[0]
        for x in fails:
            print(x["key"], x["what"])
        if fails:
            print(f"VIOLATION property={pid} replay={replay}")
        return 1 if fails else 0

    jobs = []
    for spec in prop["specs"]:
        for job in SPECS[spec]:
            n = job.get("copies", (1, 1))[1 if thorough else 0]
            jobs += [job] * n
    with ThreadPoolExecutor(8) as pool:
        building = pool.submit(build, crate)
        with ThreadPoolExecutor(5) as tl:
            runs = list(tl.map(lambda a: run_job(work, a[0], a[1], seed, thorough), enumerate(jobs)))
        binary = building.result()

    cmd = [binary, prop.get("runner", pid)]
    for r in runs:
        cmd += ["--vec", r["out"]]
    # the vectors of the findings are always replayed
    listed_vec = os.path.join(work, "known.vec")
    with open(listed_vec, "w") as f:
        f.writelines(k[1] + "\n" for k in load_known(pid))
    cmd += ["--vec", listed_vec]
    out = os.path.join(work, "report.json")
    r = sh([*cmd, "--out", out, "--seed", str(seed), "--reps", str(reps), "--dir", work,
            "--traces", str(prop.get("traces", (0, 0))[1 if thorough else 0])],
           8000 if thorough else 800)
    if r.returncode != 0 or not os.path.exists(out):
        # A crash (abort, stack overflow, out of memory) of the code under test is its violation,
        # an error of the harness itself says so and exits 2.
        if r.returncode == 2:
            raise Broken("harness: " + r.stdout[-3000:])
        rep = {"fails": [{"key": "crash", "what": f"the process ended with {r.returncode}: {r.stdout[-800:]}",
                          "index": 0, "vector": {}}], "tally": {}, "replayed": 0, "samples": [], "distinct": 0}
    else:
        with open(out) as f:
            rep = json.load(f)
    fails = list(rep["fails"])
    states = sum(x["distinct_states"] or x["states_generated"] for x in runs)
    transitions = sum(x["states_generated"] for x in runs)

    trace_fails, checked_traces, d, g = check_traces(work, prop, rep)
    fails += trace_fails
    states += d
    transitions += g

    known = load_known(pid)
    fresh, listed = [], {}
    for f in fails:
        v = json.dumps(f["vector"], sort_keys=True)
        hit = next((k for k in known if k[0] == f["key"] and k[1] == v), None)
        if hit:
            listed[hit] = True
        else:
            fresh.append(f)
    for k in listed:
        print(f"KNOWN-FINDING: property={pid} {k[2]}")

    # The check has to have reached what it is about.
    if not fresh:
        for k, n in prop["need"].items():
            got = rep["tally"].get(k, 0)
            if got < n:
                raise Broken(f"vacuous: {k} reached {got} times, expected at least {n}; tally {rep['tally']}")

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    checks = {k[7:]: n for k, n in rep["tally"].items() if k.startswith("checks:")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions,
            "traces_validated_against_impl": rep["replayed"],
            "comparisons_with_impl": sum(checks.values()),
            "recorded_events_checked_by_tlc": checked_traces,
            "concretisations_per_vector": reps,
            "tlc_runs": [{k: x[k] for k in x if k != "out"} for x in runs],
            "distinct_vectors": rep["distinct"],
            "classes": {k: n for k, n in rep["tally"].items() if k.startswith("class:")},
            "comparisons": checks,
            "samples": rep["samples"],
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if not fresh:
        print(f"{pid} held: {states} states, {transitions} transitions, {rep['replayed']} vectors replayed, "
              f"{sum(checks.values())} comparisons, {ev['wall_s']} s")
        return 0
    rdir = os.path.join(HERE, "replays", pid)
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    for f in fresh:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        safe = re.sub(r"[^A-Za-z0-9_-]", "_", f["key"])[:60]
        path = os.path.join(rdir, safe + ".json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "runner": prop.get("runner", pid), "seed": seed, "reps": reps, **f}, fh, indent=1)
        print(f"{pid} {f['key']}: {f['what'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print(f"CHECK BROKEN: {e}", file=sys.stderr)
        sys.exit(2)
