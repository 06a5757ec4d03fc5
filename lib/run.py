#!/usr/bin/env python3
"""Builds one harness from /repo's working tree, runs it, writes the evidence file and the verdict.

usage: run.py check <property>           (tier and seed from VERIF_TIER / VERIF_SEED)
       run.py build [<property>...]      (compile only; used by setup_cmd)
       run.py replay <file>              (rerun a replay file verbosely)
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TEN = os.path.join(REPO, "app/tenncor")
ROC = os.path.join(REPO, "app/rocnnet")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/g++"
BASE = ["-std=c++14", "-O0", "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
ASAN = ["-fsanitize=address"]

sys.path.insert(0, os.path.join(VERIF, "lib"))
from registry import CHECKS  # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def read(path):
    with open(path, "rb") as f:
        return f.read()


def header_hash():
    h = hashlib.sha256()
    pats = []
    for root in (TEN + "/include", TEN + "/src", TEN + "/proto", ROC + "/include"):
        for d, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith((".cpp", ".o")):
                    pats.append(os.path.join(d, f))
    for p in sorted(pats):
        h.update(p.encode())
        h.update(read(p))
    return h.hexdigest()


def gen_proto():
    """serialisation messages, and those of the visualisation service (with stubs)"""
    src = os.path.join(TEN, "proto/serial/tenncor.proto")
    gui = os.path.join(TEN, "proto/grpc/grpc_gui.proto")
    key = sha(read(src), read(gui), "proto2")[:20]
    out = os.path.join(BUILD, "gen-" + key)
    if not os.path.exists(out + "/proto/tenncor.pb.h"):
        tmp = tempfile.mkdtemp(dir=BUILD)
        os.makedirs(tmp + "/proto")
        subprocess.run(["protoc", "-I" + os.path.dirname(src), "--cpp_out=" + tmp + "/proto", src], check=True)
        subprocess.run(["protoc", "-I" + os.path.dirname(gui), "--cpp_out=" + tmp + "/proto", "--grpc_out=" + tmp + "/proto",
                        "--plugin=protoc-gen-grpc=/usr/bin/grpc_cpp_plugin", gui], check=True)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


def tenncor_sources(gd, gui):
    out = []
    for f in sorted(glob.glob(TEN + "/src/**/*.cpp", recursive=True)):
        if "/grpc_vis" in f and not gui:
            continue
        if f.endswith("/gd_utils.cpp") and not gd:
            continue
        out.append(f)
    return out


def rocnnet_sources():
    return sorted(glob.glob(ROC + "/src/**/*.cpp", recursive=True))


def compile_one(job):
    src, flags, obj = job
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return "compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[:4000])
    os.rename(tmp, obj)
    return None


def plan(prop):
    """-> list of (variant name, exe, jobs, link flags)"""
    cfg = CHECKS[prop]
    gen = gen_proto()
    hh = header_hash()
    eng = sha(*[read(p) for p in sorted(glob.glob(VERIF + "/harness/*.hpp"))])
    inc = ["-I" + TEN + "/include", "-I" + gen, "-I" + ROC + "/include", "-I" + VERIF + "/harness"]
    res = []
    for var in cfg.get("variants", [{}]):
        san = var.get("san", ASAN)
        flags = BASE + san + inc + var.get("defs", [])
        gui = cfg.get("gui", False)
        srcs = tenncor_sources(cfg.get("gd", False) or cfg.get("roc", False), gui)
        if cfg.get("roc"):
            srcs += rocnnet_sources()
        jobs = []
        gens = [gen + "/proto/tenncor.pb.cc"] + ([gen + "/proto/grpc_gui.pb.cc", gen + "/proto/grpc_gui.grpc.pb.cc"] if gui else [])
        for s in [os.path.join(VERIF, "harness", cfg["harness"])] + srcs + gens:
            own = s.startswith(VERIF + "/harness")
            fl = flags + (cfg.get("own_flags", []) if own else []) + cfg.get("file_flags", {}).get(os.path.basename(s), [])
            k = sha(hh, read(s), s, " ".join(fl), eng if own else "")[:24]
            jobs.append((s, fl, os.path.join(BUILD, "obj", k + ".o")))
        link = san + (["-lgrpc++", "-lgrpc", "-lgpr", "-labsl_synchronization"] if gui else []) + ["-lprotobuf", "-lpthread", "-ldl"] + var.get("link", [])
        exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (prop, var.get("name", "main"), sha(*[j[2] for j in jobs], " ".join(link))[:16]))
        res.append((var.get("name", "main"), exe, jobs, link))
    return res


def build(props):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    plans = [x for p in props for x in plan(p)]
    jobs = {}
    for _, exe, js, _ in plans:
        if not os.path.exists(exe):
            for j in js:
                jobs[j[2]] = j
    # slow ones first
    order = sorted(jobs.values(), key=lambda j: (not j[0].startswith(VERIF), "tenncor/src" in j[0] and "gd_utils" not in j[0]))
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for err in ex.map(compile_one, order):
            if err:
                print(err, file=sys.stderr)
                sys.exit(2)
    for _, exe, js, link in plans:
        if os.path.exists(exe):
            os.utime(exe)
            continue
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + [j[2] for j in js] + ["-o", tmp] + link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print("link failed:\n" + r.stdout.decode(errors="replace")[:4000], file=sys.stderr)
            sys.exit(2)
        os.rename(tmp, exe)
    prune()
    return plans


def prune():
    now = time.time()
    for d, cap in ((BUILD + "/obj", 3_000_000_000), (BUILD + "/bin", 2_500_000_000)):
        fs = []
        for n in os.listdir(d):
            p = os.path.join(d, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            fs.append((st.st_mtime, st.st_size, p))
        fs.sort()
        tot = sum(f[1] for f in fs)
        for m, s, p in fs:
            if tot <= cap:
                break
            if now - m < 1800:
                continue
            try:
                os.unlink(p)
            except OSError:
                pass
            tot -= s


def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' or 'fixed: property=<id> <commit> <text>'"""
    out = set()
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.add((m.group(1), m.group(2)))
    return out


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = CHECKS[prop]
    plans = build([prop])
    tb = time.time() - t0
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    known = load_known()
    bad = []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "rule": "", "samples": [], "labels": {}, "per_variant": []}
    assume = []
    internal = 0
    tmp = tempfile.mkdtemp(prefix="vfy-%s-" % prop)
    os.chmod(tmp, 0o755)
    try:
        for name, exe, _, _ in plans:
            out = os.path.join(tmp, name + ".json")
            env = dict(os.environ)
            env["VERIF_SCRATCH"] = tmp
            env["TSAN_OPTIONS"] = "halt_on_error=1"
            args = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--replaydir", rdir, "--tmp", tmp]
            if os.environ.get("VERIF_CASES"):
                args += ["--cases", os.environ["VERIF_CASES"]]
            r = subprocess.run(args, cwd=tmp, env=env)
            try:
                res = json.load(open(out))
            except (OSError, ValueError) as e:
                print("harness %s gave no result (exit %s): %s" % (name, r.returncode, e), file=sys.stderr)
                internal = 2
                continue
            cov["evaluations"] += res["evaluations"]
            cov["distinct_nontrivial"] += res["distinct_nontrivial"]
            cov["discarded"] += res["discarded"]
            if res["rule"] not in cov["rule"]:
                cov["rule"] += ("; " if cov["rule"] else "") + (name + ": " if len(plans) > 1 else "") + res["rule"]
            cov["samples"] += res["samples"]
            for k, v in res["labels"].items():
                cov["labels"][k] = cov["labels"].get(k, 0) + v
            cov["per_variant"].append({"variant": name, "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
                                       "facets": res["facets"], "run_wall_s": res["wall_s"], "unreproduced": res["unreproduced"],
                                       "unreproduced_msg": res["unreproduced_msg"], "shrink_runs": res["shrink_runs"]})
            for a in res["assumptions"]:
                if a not in assume:
                    assume.append(a)
            for k in res["known"]:
                if k["fails"]:
                    if (prop, k["key"]) in known:
                        print("KNOWN-FINDING: property=%s [%s] %s" % (prop, k["key"], k["what"]))
                        cov.setdefault("known_findings", []).append(k["key"])
                    else:
                        rp = os.path.join(rdir, "%s-probe-%s.replay" % (prop, k["key"]))
                        with open(rp, "w") as f:
                            f.write("property %s\nvariant %s\nkind probe\nkey %s\nchoices\n---\n%s\n%s\n" % (prop, name, k["key"], k["what"], k["message"]))
                        bad.append((rp, k["what"] + ": " + k["message"]))
            if res["violated"]:
                rp = res["replay"]
                if name != "main":
                    new = rp.replace(".replay", "-%s.replay" % name)
                    os.replace(rp, new)
                    rp = new
                txt = open(rp, errors="replace").read()
                with open(rp, "w") as f:
                    f.write("variant %s\n" % name + txt)
                bad.append((rp, "[%s] %s" % (res["facet"], res["message"])))
            elif res["distinct_nontrivial"] < res["min_nontrivial"] and not os.environ.get("VERIF_CASES"):
                print("warning: only %d non-trivial cases" % res["distinct_nontrivial"], file=sys.stderr)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    cov["build_wall_s"] = round(tb, 2)
    path = VERIF + "/evidence/%s.json" % prop
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for rp, msg in bad:
        print("counterexample: " + msg[:1500])
        try:
            body = open(rp, errors="replace").read()
            if "trace:" in body:
                print(body[body.index("trace:"):][:3000])
        except OSError:
            pass
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if bad:
        return 1
    if internal:
        return internal
    print("property %s held on %d generated cases (%d distinct non-trivial) in %.1f s (build %.1f s)" %
          (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tb))
    return 0


def replay(path):
    head = {}
    for line in open(path, errors="replace"):
        if line.startswith("---"):
            break
        k, _, v = line.strip().partition(" ")
        head[k] = v
    prop = head["property"]
    for name, exe, _, _ in build([prop]):
        if name != head.get("variant", "main"):
            continue
        tmp = tempfile.mkdtemp(prefix="vfy-%s-" % prop)
        env = dict(os.environ)
        env["VERIF_SCRATCH"] = tmp
        env["TSAN_OPTIONS"] = "halt_on_error=1"
        env["ASAN_OPTIONS"] = "symbolize=1"
        try:
            return subprocess.run([exe, "--prop", prop, "--replay", os.path.abspath(path), "--tmp", tmp], cwd=tmp, env=env).returncode
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 2


def main():
    os.makedirs(BUILD, exist_ok=True)
    cmd = sys.argv[1]
    if cmd == "check":
        return check(sys.argv[2])
    if cmd == "build":
        build(sys.argv[2:] or sorted(CHECKS))
        return 0
    if cmd == "replay":
        return replay(sys.argv[2])
    return 2


if __name__ == "__main__":
    sys.exit(main())
