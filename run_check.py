#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree, searches, shrinks, reports.

usage: run_check.py ID                      (VERIF_TIER, VERIF_SEED in the environment)
       run_check.py ID --replay FILE        run one replay file again
"""
import argparse, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
BASE_FLAGS = ["-std=c++17", "-include", "cstdint", "-include", "stdexcept", "-w", "-g1", "-pipe", "-D_GLIBCXX_ASSERTIONS"]


def source_dirs():
    dirs = []
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "external", "pugixml")):
        for d, sub, _ in os.walk(root):
            sub.sort()
            dirs.append(d)
    return dirs


def sources(groups):
    out = []
    for g in groups:
        if g == "baf":
            out += sorted(glob.glob(REPO + "/src/baf/*.cc"))
        elif g == "spl":
            out += sorted(glob.glob(REPO + "/src/spl/*.cc")) + sorted(glob.glob(REPO + "/src/util/*.cc"))
        elif g == "io":
            out += sorted(glob.glob(REPO + "/src/io/*.cc"))
            out += [REPO + "/external/pugixml/pugixml.cpp"]
        elif g == "log":
            mains = ("_to_",)
            out += [f for f in sorted(glob.glob(REPO + "/src/io/executables/*.cc"))
                    if not any(m in os.path.basename(f) for m in mains)]
        else:
            out.append(os.path.join(REPO, g))
    return out


def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for root in (REPO + "/src", REPO + "/example/iga/src", REPO + "/external/pugixml"):
        for d, sub, fs in os.walk(root):
            sub.sort()
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".h", ".hpp", ".cc", ".cpp", ".inc"))]
    files += sorted(glob.glob(VERIF + "/harness/*"))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, cmd


def build(spec):
    san = spec.get("san", "address")
    opt = spec.get("opt", "-O1")
    flags = BASE_FLAGS + [opt] + spec.get("flags", [])
    link = ["-Wl,--gc-sections"]
    if san:
        flags += ["-fsanitize=" + san]
        link += ["-fsanitize=" + san]
        if "undefined" in san:
            flags += ["-fno-sanitize-recover=undefined"]
    inc = []
    for d in [os.path.join(VERIF, "harness")] + source_dirs() + [os.path.join(REPO, i) for i in spec.get("inc", [])]:
        inc += ["-I" + d]
    srcs = [os.path.join(VERIF, "harness", s) for s in spec["harness"] + ["pbt.cc"]] + sources(spec["sources"])
    mains = [f for p in spec.get("programs", []) for f in sorted(glob.glob(os.path.join(REPO, p)))]
    key = tree_hash((flags, link, [os.path.relpath(s, "/") for s in srcs + mains], spec.get("libs", [])))
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, "check")
    if os.path.exists(exe):
        return exe, None
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    jobs = []
    objs = []
    for i, s in enumerate(srcs + mains):
        o = os.path.join(tmp, "%d_%s.o" % (i, os.path.basename(s)))
        objs.append(o)
        jobs.append(["g++"] + flags + inc + ["-c", s, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        for rc, text, cmd in ex.map(run, jobs):
            if rc != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                return None, " ".join(cmd) + "\n" + text[-4000:]
    own = len(spec["harness"]) + 1  # the harness itself is not part of the programs
    links = [["g++"] + link + objs[:len(srcs)] + ["-o", os.path.join(tmp, "check")] + spec.get("libs", [])]
    for s, o in zip(mains, objs[len(srcs):]):
        name = os.path.splitext(os.path.basename(s))[0]
        links.append(["g++"] + link + [o] + objs[own:len(srcs)] + ["-o", os.path.join(tmp, name)] + spec.get("libs", []))
    with ThreadPoolExecutor(8) as ex:
        for rc, text, cmd in ex.map(run, links):
            if rc != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                return None, " ".join(cmd) + "\n" + text[-4000:]
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, None


def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line[len("finding: property=%s " % pid):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[a.id]
    exe, err = build(spec)
    if exe is None:
        print("BUILD-FAILED property=%s\n%s" % (a.id, err))
        return 2
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % a.id)
    try:
        common = [exe, "--scratch", scratch, "--thorough", "1" if tier == "thorough" else "0"]
        env = dict(os.environ, **spec.get("env", {}))
        env["VERIF_REPO"] = REPO
        env["VERIF_PROGRAMS"] = os.path.dirname(exe)
        if a.replay:
            return subprocess.run(common + ["--replay", a.replay], env=env).returncode
        cases, limit = spec[tier]
        if a.cases:
            cases = a.cases
        res_file = os.path.join(scratch, "result.json")
        rc = 0
        for attempt in range(2):
            rc = subprocess.run(common + ["--seed", str(seed), "--cases", str(cases), "--time", str(limit),
                                          "--workers", str(spec.get("workers", 8)), "--out", res_file],
                                env=env).returncode
            if rc in (0, 1) and os.path.exists(res_file):
                break
        if rc not in (0, 1) or not os.path.exists(res_file):
            print("ERROR property=%s: the runner ended with status %d" % (a.id, rc))
            return 2
        res = json.load(open(res_file))
        violation = None
        if res["failed"]:
            rdir = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s_%s_seed%d.replay" % (a.id, tier, seed))
            with open(path, "w") as f:
                f.write("property %s\ntier %s\nseed %d\nmessage %s\n" % (a.id, tier, seed, res["message"].replace("\n", "\n  ")))
                for n in res.get("notes", []):
                    f.write("note %s\n" % n.replace("\n", "\n  "))
                f.write("choices\n%s\n" % " ".join(map(str, res["choices"])))
            reproduced = res["reproduced"]
            for _ in range(3):
                if not reproduced:
                    break
                reproduced = subprocess.run(common + ["--replay", path], env=env, stdout=subprocess.DEVNULL).returncode == 1
            if reproduced:
                violation = path
            else:
                print("ERROR property=%s: a failure did not reproduce: %s" % (a.id, res["message"][:500]))
                return 2
        for k in known_findings(a.id):
            print("KNOWN-FINDING: property=%s %s" % (a.id, k))
        ev = {
            "property": a.id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
                "discarded": res["discards"], "rule": res["rule"], "samples": res["samples"],
                "labels": res["labels"],
                "planned_cases": cases, "build_s": round(t_build, 1), "search_s": round(res["wall"], 1),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if violation:
            print(res["message"][:3000])
            for n in res.get("notes", [])[:40]:
                print("  " + n[:1500])
            print("VIOLATION property=%s replay=%s" % (a.id, violation))
            return 1
        print("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d discards=%d build=%.1fs search=%.1fs"
              % (a.id, tier, seed, res["evaluations"], res["distinct_nontrivial"], res["discards"], t_build, res["wall"]))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
