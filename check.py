#!/usr/bin/env python3
"""Decides one property: rebuilds the explorer against /repo's working tree (both build profiles),
runs it, writes evidence/<id>.json.

  check.py <id>               explore (tier and seed from VERIF_TIER / VERIF_SEED)
  check.py --replay <file>    re-execute the trace of a replay file on the current tree
  check.py --build            build only

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: no verdict."""
import json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
PROFILES = ["release", "checked"]
KNOWN = os.path.join(HERE, "known_findings.txt")
BUDGET = {"quick": 330, "thorough": 3 * 3600}  # seconds per profile before a run is reported as capped


def die(msg):
    print("ENGINE-ERROR " + msg)
    sys.exit(2)


def build(profiles=PROFILES):
    """Always recompiles baa from the working tree, whatever the modification times say."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    ps = []
    for p in profiles:
        fp = os.path.join(TARGET, p, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(baa|mc)-[0-9a-f]{16}$", d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        ps.append((p, subprocess.Popen(
            ["cargo", "build", "--offline", "--locked", "--profile", p], cwd=HARNESS, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    outs = [(p, q.communicate()[0], q.returncode) for p, q in ps]
    for p, out, rc in outs:
        if rc != 0:
            die("build of profile %s failed:\n%s" % (p, out[-6000:]))


def read_known():
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    return known


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def explore(prop, tier, seed, keys, profile, budget):
    """Returns (result, violation) of one profile."""
    exe = os.path.join(TARGET, profile, "mc")
    cmd = [exe, "run", prop, tier, str(seed), str(budget), ",".join(keys)]
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit)
    lines = p.stdout.strip().splitlines()
    last = lines[-1] if lines else ""
    res = None
    try:
        res = json.loads(last)
    except ValueError:
        pass
    base = {"profile": profile, "states": 0, "transitions": 0, "replayed": 0, "samples": [], "known": {},
            "capped": True, "violations": [], "wall_s": time.time() - t0, "jobs": 0, "jobs_done": 0}
    if p.returncode in (0, 1) and res is not None:
        return res
    if p.returncode == 3 and last.startswith("NO-PROGRESS "):
        base["violations"] = [{"job": last[12:], "case": "-", "reproduced": False,
                               "what": "an operation of the implementation did not terminate within 150 s"}]
        return base
    if p.returncode in (-6, -11, -4, -7, -8):
        err = p.stderr[-1500:].strip()
        base["violations"] = [{"job": "-", "case": "-", "reproduced": False,
                               "what": "the implementation aborted the process (signal %d): %s" % (-p.returncode, err)}]
        return base
    die("explorer (%s) ended with %d: %s %s" % (profile, p.returncode, p.stdout[-1500:], p.stderr[-1500:]))


def replay(path):
    d = json.load(open(path))
    build([d["profile"]])
    exe = os.path.join(TARGET, d["profile"], "mc")
    if d["trace"] == "-":
        print("no single trace was isolated: re-running the exploration")
        sys.exit(subprocess.call([exe, "run", d["property"], d["tier"], str(d["seed"]), "600", ""]))
    sys.exit(subprocess.call([exe, "replay", d["property"], d["trace"]]))


def main():
    if sys.argv[1] == "--build":
        build()
        return
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, prop + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    build()
    t_build = time.time() - t0
    known = [k for k in read_known() if k[0] == prop]
    results, viol = [], None
    for profile in PROFILES:
        r = explore(prop, tier, seed, [k[1] for k in known], profile, BUDGET[tier])
        results.append(r)
        if r["violations"]:
            viol = (profile, r["violations"])
            break
    tot = lambda k: sum(r[k] for r in results)
    capped = any(r["capped"] for r in results) or len(results) < len(PROFILES)
    cov = {
        "states": tot("states"), "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("replayed"),
        "samples": results[0]["samples"][:12] or ["(none before the first violation)"],
        "exhaustive": not capped and viol is None,
        "explanation": "states: distinct inputs or object states visited; transitions: operations executed on the real "
                       "code and judged against the reference model; traces_validated_against_impl: recorded traces "
                       "re-executed from their text alone (fresh objects) with the same verdict.",
        "per_profile": [{k: r[k] for k in r if k not in ("samples", "violations")} for r in results],
        "build_s": round(t_build, 2),
    }
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": ["the reference model in harness/src/model.rs (self-checked on every run) is right",
                        "behaviour outside the enumerated widths, values and depths (DESIGN.md) is not covered"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol[1]) if viol else 0,
    }, open(evf, "w"), indent=1)
    hits = {}
    for r in results:
        for k, (n, ex) in r["known"].items():
            hits.setdefault(k, ex)
    for _, key, what in known:
        if key in hits:
            print("KNOWN-FINDING: property=%s %s [%s; e.g. %s]" % (prop, what.strip(), key, hits[key][:200]))
    if viol:
        rd = os.path.join(ev, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + ".json")
        v = viol[1][0]
        json.dump({"property": prop, "profile": viol[0], "tier": tier, "seed": seed, "trace": v["case"], "what": v["what"],
                   "job": v["job"], "reproduced_from_text": v["reproduced"], "others": viol[1][1:],
                   "how": "python3 /verif/check.py --replay " + path}, open(path, "w"), indent=1)
        print("job:   %s (%s profile)\ntrace: %s\nwhat:  %s" % (v["job"], viol[0], v["case"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    print("held: property=%s states=%d transitions=%d wall=%.1fs%s" % (
        prop, cov["states"], cov["transitions"], time.time() - t0, " (capped)" if capped else ""))


main()
