#!/usr/bin/env python3
"""Builds one property's simulation binary from /repo's working tree, searches seeded schedules and fault
sequences for a violation, and writes /verif/evidence/<id>.json.

  check.py <ID>                     search (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py <ID> --replay FILE       re-execute a replay file exactly
  check.py <ID> --build-only
  check.py --selftest [IDs]         determinism self-test (every seed three times)
"""
import json, os, re, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS, REAL, STUB  # noqa: E402

REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-Wno-tsan",
       "-DASYNCPP_HAS_TSAN=0", "-DASYNCPP_HAS_ASAN=0", "-DASYNCPP_HAS_VALGRIND=0"]
BASE = ["g++", "-std=c++20", "-g", "-fno-pie", "-pipe"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def key_of(cmd, files):
    h = hashlib.sha256(" ".join(cmd).encode())
    for f in files:
        with open(f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for root, _, names in os.walk(os.path.join(REPO, "include")):
        out += [os.path.join(root, n) for n in names]
    return sorted(out)


def compile_obj(cmd, out, deps):
    """Compiles unless an object built from exactly these inputs is there."""
    k = key_of(cmd, deps)
    try:
        if os.path.exists(out) and open(out + ".key").read() == k:
            return None
    except OSError:
        pass
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        return r.stdout
    os.replace(tmp, out)
    with open(out + ".key", "w") as f:
        f.write(k)
    return None


def sim(name):
    return os.path.join(VERIF, "sim", name)


def build(pid):
    """Returns the list of (binary, label)."""
    os.makedirs(BUILD, exist_ok=True)
    rt, drv = os.path.join(BUILD, "rt.o"), os.path.join(BUILD, "driver.o")
    jobs = [
        (BASE + ["-O2", "-mfsgsbase", "-c", sim("rt.cpp")], rt, [sim("rt.cpp"), sim("rt.h"), sim("sim.h")]),
        (BASE + ["-O2", "-c", sim("driver.cpp")], drv, [sim("driver.cpp"), sim("rt.h"), sim("sim.h")]),
    ]
    bins = []
    scen = os.path.join(VERIF, "scen")
    hdrs = [os.path.join(scen, n) for n in sorted(os.listdir(scen)) if n.endswith(".h")]
    rf = repo_files()
    for i, b in enumerate(PROPS[pid]["builds"]):
        src = os.path.join(scen, b["src"])
        obj = os.path.join(BUILD, "%s_%d.o" % (pid, i))
        cmd = BASE + ["-O1"] + SAN + b.get("flags", []) + ["-include", sim("atomics.h"), "-I" + os.path.join(REPO, "include"), "-c", src]
        jobs.append((cmd, obj, [src, sim("atomics.h"), sim("sim.h")] + hdrs + rf))
        bins.append((obj, os.path.join(BUILD, "%s_%d" % (pid, i)), b.get("label", b["src"])))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: compile_obj(*j), jobs) if e]
    if errs:
        print("\n".join(errs)[:8000])
        print("ERROR: the simulation of %s does not compile against %s" % (pid, REPO))
        sys.exit(2)
    out = []
    for obj, exe, label in bins:
        r = sh(["g++", "-no-pie", "-Wl,-z,now", "-static-libstdc++", "-static-libgcc", obj, rt, drv, "-lpthread", "-ldl", "-o", exe])
        if r.returncode != 0:
            print(r.stdout)
            sys.exit(2)
        out.append((exe, label))
    return out


def symbolise(exe, text):
    """Adds function and line to every @pc / 0x... code address of the binary."""
    pcs = sorted(set(re.findall(r"@([0-9a-f]{5,8})\b", text)) | set(re.findall(r"0x([0-9a-f]{6,7})\b", text)))
    if not pcs:
        return text
    # a return address points behind the call
    adj = ["%x" % (int(p, 16) - 1) for p in pcs]
    r = subprocess.run(["addr2line", "-aiCfs", "-e", exe] + adj, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    m = {}
    for chunk, p in zip(re.split(r"^0x[0-9a-f]{16}\n", r.stdout, flags=re.M)[1:], pcs):
        l = chunk.strip("\n").split("\n")
        frames = [(l[k], l[k + 1].split(" ")[0]) for k in range(0, len(l) - 1, 2) if "??" not in l[k + 1]]
        # the innermost frame outside the standard library and the simulator's wrappers
        sel = [f for f in frames if not re.match(r"(atomics|atomic|atomic_base|stl_\w+|std_\w+|unique_ptr|shared_ptr\w*|alloc_traits|new_allocator|invoke|coroutine|thread|variant|move|exception_ptr)\.?h?:", f[1])] or frames
        if sel:
            fn = sel[0][0]
            while re.search(r"<[^<>]*>", fn):
                fn = re.sub(r"<[^<>]*>", "", fn)
            fn = re.sub(r"\(anonymous namespace\)::", "", fn)
            m[p] = "%s(%s)" % (sel[0][1], re.sub(r"\(.*", "", fn)[:60])
    text = re.sub(r"@([0-9a-f]{5,8})\b", lambda x: "@" + m.get(x.group(1), x.group(1)), text)
    text = re.sub(r"0x([0-9a-f]{6,7})\b", lambda x: m.get(x.group(1), x.group(0)), text)
    return text


def known_findings(pid):
    """Lines 'known: property=<id> build=<label> key=<scenario/kind/tag> <text>' of /verif/known-findings.txt."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) build=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


def write_plain(path, v):
    with open(path, "w") as f:
        f.write("%s %d %d %d\n" % (v["scenario"], v["seed"], 1 if v["use_choices"] else 0, v["nchoices"]))
        for i, x in v["choices"]:
            f.write("%d:%d\n" % (i, x))


def run_replay(exe, v, trace, tmp):
    write_plain(tmp, v)
    r = subprocess.run([exe, "replay", "--replay", tmp, "--out", tmp + ".out"] + (["--trace"] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        d = json.load(open(tmp + ".out"))
    except Exception:
        d = {"code": -1, "kind": "?", "tag": "?", "hash": "?", "message": "replay failed (%d)" % r.returncode, "trace": ""}
    for p in (tmp, tmp + ".out"):
        try:
            os.unlink(p)
        except OSError:
            pass
    return d


def replay(pid, path):
    rec = json.load(open(path))
    bins = build(pid)
    exe = [e for e, l in bins if l == rec["build"]][0]
    d = run_replay(exe, rec, True, os.path.join(BUILD, "replay.%d" % os.getpid()))
    print(symbolise(exe, d["trace"])[-20000:])
    print(symbolise(exe, d["message"]))
    same = d["code"] != 0 and d["kind"] == rec["kind"] and d["tag"] == rec["tag"]
    print("replay: recorded %s/%s hash %s; now %s" % (rec["kind"], rec["tag"], rec["hash"],
          "%s/%s hash %s" % (d["kind"], d["tag"], d["hash"]) if d["code"] else "no violation"))
    if same:
        print("replay %s" % ("reproduces exactly" if d["hash"] == rec["hash"] else "reproduces the violation (the code differs from the recorded tree)"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            dst[k] = (max if k == "max_steps" else lambda a, b: a + b)(dst.get(k, 0), v)


def gate(v):
    """A fresh process must reproduce the violation from the replay data, twice, as the identical execution."""
    tmp = os.path.join(BUILD, "gate.%d" % os.getpid())
    a, b = run_replay(v["exe"], v, False, tmp), run_replay(v["exe"], v, False, tmp)
    same = all(x["code"] != 0 and x["kind"] == v["kind"] and x["tag"] == v["tag"] for x in (a, b))
    if not same and a["code"] != 0 and all(a[k] == b[k] for k in ("code", "kind", "tag", "hash")):
        # corrupted memory shows differently in a fresh process, but always the same way: report that
        for k in ("kind", "tag", "hash", "message"):
            v[k] = a[k]
        v["trace"] = run_replay(v["exe"], v, True, tmp)["trace"]
        same = True
    v["fresh_process_exact"] = same and a["hash"] == b["hash"] == v["hash"]
    return same


def search(pid):
    t0 = time.time()
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[pid]
    bins = build(pid)
    tb = time.time()
    workers = os.cpu_count() or 8
    known = known_findings(pid)
    total, violations, samples, unrepro, selft, scen_weights = {}, [], [], 0, [], {}
    known_seen = set()
    cands = 0
    for n, (exe, label) in enumerate(bins):
        if os.environ.get("SIM_ONLY") and os.environ["SIM_ONLY"] != label:
            continue
        b = P["builds"][n]
        if os.environ.get("SIM_SCEN") and not set(os.environ["SIM_SCEN"].split(",")) <= {l.split(" ")[0] for l in sh([exe, "list"]).stdout.split("\n")}:
            continue  # development only
        runs = int(b.get(tier, 400000 if tier == "quick" else 30000000))
        if os.environ.get("SIM_RUNS"):  # development only
            runs = int(os.environ["SIM_RUNS"])
        cap = (240 if tier == "quick" else 5400) / len(bins)
        out = os.path.join(BUILD, "out_%s_%d.json" % (pid, n))
        cmd = [exe, "run", "--prop", pid + "/" + label, "--seed", str(seed), "--runs", str(runs), "--wall", str(cap), "--workers", str(workers), "--out", out]
        for kb, kk, _ in known:
            if kb == label:
                cmd += ["--known", kk]
        sel = os.environ.get("SIM_SCEN") or b.get("scen")
        sel = ["--scen", sel] if sel else []
        cmd += sel
        st = sh([exe, "selftest", "--prop", pid + "/" + label, "--seed", str(seed + 7), "--runs", "100" if tier == "quick" else "2000"] + sel)
        selft.append(st.stdout.strip())
        first, tw = 0, time.time()
        for attempt in range(4):
            try:
                os.unlink(out)
            except OSError:
                pass
            r = subprocess.run(cmd + ["--first", str(first), "--wall", str(max(20, cap - (time.time() - tw)))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.stdout.strip():
                print(r.stdout.strip())
            try:
                d = json.load(open(out))
            except Exception as e:
                print("ERROR: the simulator driver failed (%d): %s" % (r.returncode, e))
                sys.exit(3)
            vs = d.pop("violations")
            samples += d.pop("samples")
            unrepro += d.pop("unreproducible")
            cands += d.pop("candidates")
            known_seen |= {(label, k) for k in d.pop("known_hits")}
            first += d["runs"] + 16 * workers
            d.pop("seed"), d.pop("workers")
            merge(total, d)
            good = []
            for v in vs:
                v["build"] = label
                v["exe"] = exe
                if gate(v):
                    good.append(v)
                else:
                    unrepro += 1
                    print("SIM-ERROR: %s/%s of scenario %s does not reproduce from its replay file" % (v["kind"], v["tag"], v["scenario"]))
            violations += good
            # memory that got corrupted can make a run irreproducible: look for another one
            if good or not vs or time.time() - tw > cap:
                break
        if violations:
            break
    for kb, kk, text in known:
        if (kb, kk) in known_seen:
            print("KNOWN-FINDING: property=%s %s [%s %s]" % (pid, text, kb, kk))
    rep_dir = os.path.join(VERIF, "replays")
    reported = 0
    for i, v in enumerate(violations):
        exe = v.pop("exe")
        os.makedirs(rep_dir, exist_ok=True)
        v["property"] = pid
        v["message"] = symbolise(exe, v["message"])
        v["trace"] = symbolise(exe, v["trace"]).split("\n")
        path = os.path.join(rep_dir, "%s-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("---- %s: %s/%s in scenario %s (seed %d), minimised to %d non-default choices of %d%s" % (
            pid, v["kind"], v["tag"], v["scenario"], v["seed"], v["minimised_nonzero"], v["original_nonzero"], "" if v["fresh_process_exact"] else " [inexact hash]"))
        print(v["message"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        if os.environ.get("SIM_SHOW"):
            print("\n".join(v["trace"][-int(os.environ["SIM_SHOW"]):]))
        reported += 1
    wall = time.time() - t0
    sw = total.get("wall_s", 0) or 1e-9
    runs = total.get("runs", 0)
    faults = {k: v for k, v in total.get("faults", {}).items()}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": reported,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": total.get("distinct_nontrivial", 0),
            "rule": "One evaluation is one simulated execution of the real library code, fully determined by its seed (scenario, workload parameters, every scheduling decision, every clock jump and injected fault are drawn from it). "
                    "It is non-trivial if it contains a preemption, more than two context switches or an injected fault; executions are distinct if the hash over their complete sequence of schedule decisions, synchronisation operations with object identity and observed values, allocations and faults differs.",
            "samples": samples[:3] if samples else [{"violation": v["message"][:400]} for v in violations] or [{"note": "none"}],
            "runs_requested": total.get("requested", 0),
            "runs_per_hour": int(runs / sw * 3600),
            "search_wall_s": round(total.get("wall_s", 0), 2),
            "build_wall_s": round(tb - t0, 2),
            "simulated_seconds": total.get("sim_seconds", 0),
            "scheduling_steps": total.get("steps", 0),
            "context_switches": total.get("switches", 0),
            "preemptions": total.get("preemptions", 0),
            "choices": total.get("choices", 0),
            "memory_accesses_checked": total.get("accesses", 0),
            "simulated_threads": total.get("threads", 0),
            "distinct_executions": total.get("distinct", 0),
            "distinct_table_overflow": total.get("set_full", 0),
            "longest_run_steps": total.get("max_steps", 0),
            "runs_with_faults": total.get("fault_runs", 0),
            "faults_injected": faults,
            "runs_per_scenario": total.get("scenarios", {}),
            "rare_condition_probes": total.get("probes", {}),
            "determinism_selftest": selft,
            "unreproducible_candidates": unrepro,
            "real_components": P.get("real", []) + REAL,
            "stubbed_components": P.get("stub", []) + STUB,
        },
        "assumptions": P.get("assumptions", []) + [
            "sampling: a clean batch is evidence, not proof; executions are bounded to the thread counts and operation counts of the scenarios",
            "x86-64 build by GCC 13; weak memory is modelled by stale reads of up to 4 stores per atomic and vector-clock race detection, not by a full C++ memory model",
        ],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s: %d runs, %d distinct non-trivial executions, %.0f simulated s, %.1f s search, %.1f s build, %d violation(s)" % (
        pid, runs, total.get("distinct_nontrivial", 0), total.get("sim_seconds", 0), total.get("wall_s", 0), tb - t0, reported))
    if reported:
        return 1
    if unrepro or cands:
        print("ERROR: %d violation candidate(s) could not be reproduced" % max(unrepro, cands))
        return 3
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--selftest":
        rc = 0
        n = "500"
        ids = a[1:] or sorted(PROPS)
        for pid in ids:
            for exe, label in build(pid):
                for w in range(4):
                    sel = [b.get("scen") for b in PROPS[pid]["builds"] if b.get("label", b["src"]) == label][0]
                    r = sh([exe, "selftest", "--prop", pid + "/" + label, "--seed", str(100 + w), "--runs", n] + (["--scen", sel] if sel else []))
                    print(r.stdout.strip())
                    rc |= r.returncode
        return rc
    pid = a[0]
    if "--build-only" in a:
        build(pid)
        return 0
    if "--replay" in a:
        return replay(pid, a[a.index("--replay") + 1])
    return search(pid)


sys.exit(main())
