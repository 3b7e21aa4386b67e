#!/usr/bin/env python3
"""Decide one property: build its harness(es) from /repo's working tree, explore the whole bounded
space, replay every finding, write evidence/<id>.json, print VIOLATION / KNOWN-FINDING lines.

usage: check.py <property> [--tier quick|thorough] [--replay FILE] [--keep]
exit:  0 property held on everything explored, 1 violation(s), 2 the check could not be run
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GBS_REPO", "/repo")
WORK = os.path.join(VERIF, "_work")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE = ["-std=c++20", "-DNDEBUG", "-w", "-DRAPIDJSON_HAS_CXX11_RVALUE_REFS",
        "-I" + os.path.join(VERIF, "lib"), "-I" + REPO, "-I" + os.path.join(REPO, "inc"),
        "-isystem", "/usr/include/eigen3"]
ASAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
FAST = ["-O2"]
# thread instrumentation linked with our own runtime (lib/racert.h)
RACE = ["-O1", "-g1", "-fsanitize=thread", "-fno-sanitize-link-runtime"]

sys.path.insert(0, VERIF)
from registry import REGISTRY  # noqa: E402


def die(msg):
    print("CHECK-ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def build(h):
    src = os.path.join(VERIF, "harness", h["src"])
    out = os.path.join(WORK, h["name"])
    mode = {"asan": ASAN, "fast": FAST, "race": RACE}[h.get("mode", "asan")]
    extra = [a.replace("$REPO", REPO).replace("$VERIF", VERIF) for a in h.get("cxx", [])]
    libs = [a.replace("$REPO", REPO).replace("$VERIF", VERIF) for a in h.get("libs", ["-ltbb"])]
    more = [os.path.join(REPO, s) for s in h.get("repo_sources", [])]
    cmd = [CXX] + BASE + mode + extra + [src] + more + ["-o", out] + libs
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return h, None, r.stdout[-3000:], time.time() - t
    return h, out, "", time.time() - t


def env_for_run():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=190:allocator_may_return_null=1:detect_odr_violation=0"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_bugs=1"
    return e


def load_known(prop):
    """known_findings.txt lines:  known: property=<id> harness=<name> unit=<unit> key=<key> :: text"""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) harness=(\S+) unit=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append(dict(harness=m.group(2), unit=m.group(3), key=m.group(4), text=m.group(5)))
    return known


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 1
        elif args[i] == "--replay":
            replay = args[i + 1]; i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in REGISTRY:
        die("unknown property " + prop)
    spec = REGISTRY[prop]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    t0 = time.time()
    harnesses = [h for h in spec["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    if replay:
        rp = json.load(open(replay))
        harnesses = [h for h in harnesses if h["name"] == rp["harness"]]
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(build, harnesses))
    for h, exe, log, dt in built:
        if exe is None:
            print(log)
            die("harness %s does not build against %s" % (h["name"], REPO))
    if replay:
        r = subprocess.run([built[0][1], "--tier", rp["tier"], "--unit", rp["unit"], "--workdir", WORK, "--jobs", "1", "--limit", "900"], env=env_for_run())
        sys.exit(r.returncode)
    results = []
    budget = 0
    for h, exe, log, dt in built:
        out = os.path.join(WORK, h["name"] + ".json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--tier", tier, "--out", out, "--workdir", WORK, "--jobs", str(h.get("jobs", 8)),
               "--limit", str(h.get("limit", 200 if tier == "quick" else 3000))]
        r = subprocess.run(cmd, env=env_for_run(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(r.stderr[-2000:])
            die("harness %s ended with status %d" % (h["name"], r.returncode))
        res = json.load(open(out, errors="replace"))
        results.append((h, res, dt))
    known = load_known(prop)
    violations, known_hit, unreplayed = [], [], []
    for h, res, dt in results:
        for f in res["findings"]:
            k = [x for x in known if x["harness"] == h["name"] and x["unit"] == f["unit"] and x["key"] == f["key"]]
            if k:
                known_hit.append((k[0], f))
            elif f["replayed"]:
                violations.append((h, f))
            else:
                unreplayed.append((h, f))
    seen = set()
    for k, f in known_hit:
        line = "KNOWN-FINDING: property=%s %s" % (prop, k["text"])
        if line not in seen:
            seen.add(line)
            print(line)
    tot = lambda key: sum(res[key] for _, res, _ in results)
    samples = []
    for h, res, dt in results:
        samples += ["%s/%s" % (h["name"], s) for s in res["samples"]]
    coverage = dict(
        states=tot("states"), transitions=tot("transitions"),
        traces_validated_against_impl=tot("traces") if tot("traces") else tot("states"),
        samples=samples[:12],
        distinct_outcomes=tot("distinct_outcomes"),
        units=tot("units"), units_finished=tot("units_finished"),
        exhaustive=not any(res["capped"] for _, res, _ in results) and tot("units") == tot("units_finished"),
        bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
        trace_validation=spec.get("trace_validation", "the exploration runs directly on the implementation: each explored case is an execution of the real code compared step by step with the reference model; there is no separate model whose traces could diverge"),
        harnesses=[dict(name=h["name"], build_s=round(dt, 1), explore_s=round(res["wall_s"], 1), states=res["states"], transitions=res["transitions"], units=res["units"], slowest_unit=res["slowest_unit"]) for h, res, dt in results],
        known_findings=len(seen), unreplayed=len(unreplayed))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=coverage,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: states=%d transitions=%d outcomes=%d units=%d/%d violations=%d known=%d wall=%.1fs" % (
        prop, tier, coverage["states"], coverage["transitions"], coverage["distinct_outcomes"], coverage["units_finished"], coverage["units"], len(violations), len(seen), ev["wall_s"]))
    if violations:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (h, f) in enumerate(violations[:10]):
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(path, "w") as g:
                json.dump(dict(property=prop, harness=h["name"], tier=tier, unit=f["unit"], key=f["key"], message=f["msg"],
                               how="python3 %s %s --replay %s" % (os.path.join(VERIF, "check.py"), prop, path)), g, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s/%s [%s] %s" % (h["name"], f["unit"], f["key"], f["msg"][:700]))
        sys.exit(1)
    if unreplayed:
        for h, f in unreplayed[:5]:
            print("UNREPLAYED %s/%s [%s] %s" % (h["name"], f["unit"], f["key"], f["msg"][:400]))
        die("a finding did not replay")
    if coverage["units_finished"] != coverage["units"]:
        die("exploration incomplete")
    sys.exit(0)


if __name__ == "__main__":
    main()
