#!/usr/bin/env python3
"""Runs the check of one property: builds its harness programs from /repo's
current working tree, runs them, writes evidence/<id>.json and prints
VIOLATION / KNOWN-FINDING lines.

usage: check.py <ID> [--replay FILE] [--keep]
Exit: 0 held, 1 violation, anything else: error of the check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb  # noqa: E402
from registry import PROPS  # noqa: E402

VERIF = vb.VERIF
EVID = os.path.join(VERIF, "evidence")


def scratch_dir():
    for base in ("/dev/shm", tempfile.gettempdir()):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < (1 << 30):
                continue
            d = tempfile.mkdtemp(prefix="verif-", dir=base)
            return d
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="verif-")


def builder(h):
    kind = h.get("variant", "plain")
    cfg = dict(mode=h.get("mode", "boot"))
    if kind == "sched":
        cfg.update(vb.TSAN)
    elif kind == "asan":
        cfg.update(cflags=("-fsanitize=address,undefined",
                           "-fno-sanitize-recover=undefined",
                           "-fno-omit-frame-pointer"))
    if cfg["mode"] == "full":
        import fullmode
        cfg["incdirs"] = fullmode.prepare()
    if h.get("serve"):
        cfg["preinc"] = [os.path.join(vb.VERIF, "proto/serve")]
    if h.get("remote"):
        cfg["preinc"] = [os.path.join(vb.VERIF, "proto/remote")]
        cfg["remote"] = True
    b = vb.Builder(**cfg)
    return b


def build(h):
    kind = h.get("variant", "plain")
    b = builder(h)
    src = list(h["src"])
    ld = ["-rdynamic"] if kind in ("sched", "fs") else []
    if kind in ("sched", "fs") and "rt/sched.cpp" not in src:
        src.append("rt/sched.cpp")
        b.noinstr.add("rt/sched.cpp")
    if kind == "asan":
        ld += ["-fsanitize=address,undefined"]
    if h.get("mode") == "full":
        import fullmode
        src += fullmode.sources()
        ld += fullmode.libs()
    return b.build(h["name"], src, ldflags=ld, libs=h.get("libs", ()),
                   repo_sources=h.get("repo_src", ()),
                   catch=h.get("catch", False))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    if "--thorough" in sys.argv:
        tier = "thorough"
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    known = []
    try:
        for e in json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]:
            if e["property"] == pid:
                known.append(e)
    except FileNotFoundError:
        pass
    if not replay:
        for f in os.listdir(EVID):
            if f.startswith(pid + ".replay-"):
                os.unlink(os.path.join(EVID, f))
    scratch = scratch_dir()
    results = []
    try:
        for h in prop["harnesses"]:
            if replay and replay["harness"] != h["name"]:
                continue
            tb = time.time()
            out = os.path.join(scratch, h["name"] + ".json")
            sd = os.path.join(scratch, "s-" + h["name"])
            os.mkdir(sd)
            if "py" in h:
                cmd = [h.get("python", "/usr/bin/python3"),
                       os.path.join(VERIF, h["py"])]
                exe = None
                binary = None
                if "needs" in h:
                    exe = []
                    for n in h["needs"]:
                        exe.append(build(n))
                    cmd += ["--bin", ",".join(exe)]
            else:
                binary = build(h)
                exe = [binary]
                cmd = [binary]
            build_s = time.time() - tb
            cmd += ["--tier", tier, "--out", out, "--seed", str(seed),
                    "--scratch", sd] + list(h.get("args", []))
            if replay:
                cmd += ["--part", replay["part"], "--replay",
                        replay["replay"]]
            env = dict(os.environ)
            env.update({"TMPDIR": sd, "HOME": sd,
                        "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8",
                        "ASAN_OPTIONS": "detect_leaks=0",
                        "PYTHONDONTWRITEBYTECODE": "1"})
            env.update(h.get("env", {}))
            r = subprocess.run(cmd, env=env, cwd=sd,
                               stdout=subprocess.DEVNULL)
            for e in exe or []:
                try:
                    os.unlink(e)
                except OSError:
                    pass
            if not os.path.exists(out) or r.returncode not in (0, 1):
                print("ERROR: harness %s ended with status %d" %
                      (h["name"], r.returncode), file=sys.stderr)
                return 2
            j = json.load(open(out))
            j["harness"] = h["name"]
            j["build_s"] = build_s
            results.append(j)
    except vb.BuildError as e:
        print("ERROR: build failed: %s" % e, file=sys.stderr)
        return 2
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch],
                       stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)

    viols = [dict(v, harness=j["harness"]) for j in results
             for v in j["violations"]]
    new = []
    hit = {}
    for v in viols:
        for e in known:
            if e["part"] == v["part"] and e["key"] == v["key"]:
                hit[(e["part"], e["key"])] = e
                break
        else:
            new.append(v)
    for e in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    parts = [dict(p, harness=j["harness"]) for j in results
             for p in j["parts"]]
    cov = {}
    # an enumeration that reports no finer states explores one state per case,
    # reached by one execution of the real code
    states = sum(p.get("states", 0) or p.get("evaluations", 0) for p in parts)
    trans = sum(p.get("transitions", 0) or p.get("evaluations", 0) for p in parts)
    execs = sum(p.get("executions", 0) for p in parts)
    evals = sum(p.get("evaluations", 0) for p in parts)
    nontriv = sum(p.get("nontrivial", 0) for p in parts)
    samples = []
    for p in parts:
        for s in p.get("samples", [])[:2]:
            if len(samples) < 12:
                samples.append({"part": p["name"], "case": s})
    rules = [p["name"] + ": " + p["rule"] for p in parts if p.get("rule")]
    lvl = prop["level"]
    if lvl == "model_checking":
        cov["states"] = states
        cov["transitions"] = trans
        cov["traces_validated_against_impl"] = \
            sum(p.get("traces", p.get("executions", 0)) for p in parts) + evals
        if evals:
            cov["evaluations"] = evals
            cov["distinct_nontrivial"] = nontriv
            cov["rule"] = "; ".join(rules)
    else:
        cov["evaluations"] = evals + execs
        cov["distinct_nontrivial"] = nontriv + \
            sum(p.get("executions", 0) for p in parts if "nontrivial" not in p)
        cov["rule"] = "; ".join(rules) or prop.get("rule", "")
        if execs:
            cov["states"] = states
            cov["transitions"] = trans
            cov["crashes_injected"] = sum(p.get("crashes", 0) for p in parts)
    cov["samples"] = samples or [p["name"] for p in parts]
    cov["exhaustive"] = all(p.get("exhaustive", True) for p in parts)
    cov["parts"] = [{k: v for k, v in p.items()
                     if k not in ("samples", "rule")} for p in parts]
    ev = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": lvl,
        "coverage": cov,
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if not replay:
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    shown = 0
    for i, v in enumerate(new):
        rp = os.path.join(EVID, "%s.replay-%d.json" % (pid, i))
        with open(rp, "w") as f:
            json.dump(dict(v, property=pid,
                           how="tools/check.py %s --replay <this file>" % pid),
                      f, indent=1)
        if shown < 10:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  " + v["part"] + ": " + v["message"][:1500])
            shown += 1
    caps = [p["name"] for p in parts if not p.get("exhaustive", True)]
    print("%s: %d states, %d transitions, %d executions, %d cases in %d parts, "
          "%.0fs%s%s" %
          (pid, states, trans, execs, evals, len(parts), time.time() - t0,
           "" if not caps else "; capped: " + " ".join(caps),
           "" if not hit else "; %d known" % len(hit)))
    if not parts and not replay:
        return 2
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
