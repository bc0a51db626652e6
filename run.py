#!/usr/bin/env python3
"""Decides one property of /repo: run.py PROPERTY [quick|thorough]

Rebuilds an include tree from /repo's working tree, compiles the contract files of the property against the real headers
(with `double` as the symbolic scalar of engine/), lets the engine generate and discharge every obligation, and replays
whatever is not discharged on the same headers compiled with plain double.  See DESIGN.md."""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HUMOTO_REPO", "/repo")
EIGEN = "/usr/include/eigen3"
CXX = os.environ.get("VP_CXX", "clang++")
NCPU = os.cpu_count() or 4

BUILD_CONFIG = """#pragma once
#define HUMOTO_COMPILER_SUPPORTS_FUNC_
#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_
#define HUMOTO_DEFAULT_CONFIG_PREFIX "/nonexistent/"
"""


def sh(cmd, timeout=None, env=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)          # the workers of the engine as well
        except OSError:
            pass
        out, err = p.communicate()
        return -999, out.decode(errors="replace"), "timeout"


def include_tree(dst):
    h = os.path.join(dst, "include", "humoto")
    os.makedirs(h)

    def cp(src, only=None):
        if not os.path.isdir(src):
            return
        for name in sorted(os.listdir(src)):
            s, d = os.path.join(src, name), os.path.join(h, name)
            if os.path.isdir(s):
                shutil.copytree(s, d, dirs_exist_ok=True)
            elif only is None or name.endswith(only):
                shutil.copy(s, d)

    cp(os.path.join(REPO, "core/include"))
    for m in ("wpg04", "pepper_mpc", "pepper_ik"):
        cp(os.path.join(REPO, "modules", m, "include"))
    oa = os.path.join(REPO, "bridges/obstacle_avoidance")
    for base in (oa, os.path.join(oa, "include")):
        if os.path.isdir(base):
            for name in sorted(os.listdir(base)):
                s = os.path.join(base, name)
                if name.endswith(".h"):
                    shutil.copy(s, os.path.join(h, name))
                elif name == "obstacles" and os.path.isdir(s):
                    shutil.copytree(s, os.path.join(h, name), dirs_exist_ok=True)
    for b in ("config_msgpack", "config_yaml", "QuadProgpp", "qpmad", "qpOASES", "rbdl"):
        cp(os.path.join(REPO, "bridges", b, "interface"))
    with open(os.path.join(h, "build_config.h"), "w") as f:
        f.write(BUILD_CONFIG)


def contract_files(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.cpp"))):
        head = open(f).read(4000)
        m = re.search(r"^// PROPERTY (.*)$", head, re.M)
        if m and prop in m.group(1).split():
            flags = re.search(r"^// FLAGS (.*)$", head, re.M)
            out.append((f, flags.group(1).split() if flags else []))
    return out


def compile_obj(src, obj, scratch, extra, timeout=600):
    cmd = [CXX, "-std=c++14", "-w", "-ferror-limit=5", "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "contracts"), "-I" + os.path.join(VERIF, "contracts", "third_party"),
           "-I" + os.path.join(scratch, "include"), "-I" + EIGEN, "-c", src, "-o", obj] + extra
    rc, out, err = sh(cmd, timeout)
    return rc, err


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="humoto-verif-%s-" % prop)
    os.environ["VP_SCRATCH"] = scratch
    try:
        rc = decide(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


class Tu:
    def __init__(self, src, flags):
        self.src, self.flags = src, flags
        self.name = os.path.splitext(os.path.basename(src))[0]
        self.sym = self.con = None
        self.sym_err = self.con_err = ""
        self.con_done = False


def build_concrete(tu, scratch, con_engine, sanitize=False):
    """the same contracts on the code as it runs (IEEE double)"""
    if tu.con_done:
        return
    tu.con_done = True
    obj = os.path.join(scratch, tu.name + ".con.o")
    rc, err = compile_obj(tu.src, obj, scratch, ["-DVP_CONCRETE", "-O1"] + tu.flags)
    if rc != 0:
        tu.con_err = err
        return
    exe = os.path.join(scratch, tu.name + ".con")
    rc, _, err = sh([CXX, obj, con_engine(), "-o", exe])
    if rc != 0:
        tu.con_err = err
        return
    tu.con = exe


def merge(recs):
    """the workers of one contract"""
    out = dict(recs[-1])
    out["open"], out["labels"], out["by"] = [], {}, {}
    out["sized"] = any(r["sized"] for r in recs)
    for k in ("paths", "infeasible", "discharged", "failed", "unknown", "solver_seconds", "wide_undecided"):
        out[k] = sum(r[k] for r in recs)
    for k in ("inputs", "seconds"):
        out[k] = max(r[k] for r in recs)
    out["incomplete"] = "; ".join(sorted({r["incomplete"] for r in recs if r["incomplete"]}))
    for r in recs:
        out["open"] += r["open"]
        for d in ("labels", "by"):
            for k, v in r[d].items():
                out[d][k] = out[d].get(k, 0) + v
    return out


def decide(prop, tier, seed, scratch, t0):
    thorough = tier == "thorough"
    files = contract_files(prop)
    if not files:
        print("no contract file for", prop)
        return 2
    include_tree(scratch)
    tus = [Tu(f, fl) for f, fl in files]
    eng = os.path.join(scratch, "engine.o")
    ceng = os.path.join(scratch, "cengine.o")
    ex = cf.ThreadPoolExecutor(NCPU)

    def build_engine():
        rc, err = compile_obj(os.path.join(VERIF, "engine/vp_symbolic.cpp"), eng, scratch, ["-O2"])
        if rc:
            raise RuntimeError("engine does not compile: " + err[:2000])

    def build_cengine():
        rc, err = compile_obj(os.path.join(VERIF, "engine/vp_concrete.cpp"), ceng, scratch, ["-O1"])
        if rc:
            raise RuntimeError("engine does not compile: " + err[:2000])

    fe, fc = ex.submit(build_engine), ex.submit(build_cengine)

    def con_engine():
        fc.result()
        return ceng

    def build_symbolic(tu):
        obj = os.path.join(scratch, tu.name + ".sym.o")
        rc, err = compile_obj(tu.src, obj, scratch, ["-O1"] + tu.flags)
        if rc != 0:
            tu.sym_err = err
            return
        fe.result()
        exe = os.path.join(scratch, tu.name + ".sym")
        rc, _, err = sh([CXX, obj, eng, "-o", exe, "-lz3", "-lgmpxx", "-lgmp"])
        if rc != 0:
            tu.sym_err = err
            return
        tu.sym = exe

    list(ex.map(build_symbolic, tus))
    fe.result()
    build_s = time.time() - t0

    # ---- discharge
    env = {"VP_MAX_SECONDS": "1500" if thorough else "400", "VP_TIMEOUT_MS": "60000" if thorough else "15000"}
    jobs = []
    for tu in tus:
        if not tu.sym:
            continue
        rc, out, err = sh([tu.sym, "--list"])
        for name in out.split():
            jobs.append((tu, name))

    def run_contract(j):
        tu, name = j
        rc, out, err = sh([tu.sym, name, str(NCPU)], timeout=2400 if thorough else 520, env=env)
        recs = []
        for line in out.splitlines():
            if line.startswith("{\"contract\""):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        rec = merge(recs) if recs else None
        if rc != 0 or rec is None:
            kind = "timeout" if rc == -999 else "crash" if rc < 0 else "error"
            rec = rec or {"contract": name, "functions": "", "paths": 0, "discharged": 0, "failed": 0, "unknown": 0, "inputs": 0,
                          "seconds": 0, "solver_seconds": 0, "sized": False, "by": {}, "labels": {}, "open": []}
            rec["incomplete"] = "%s (exit %s): %s" % (kind, rc, err[-300:])
            rec["open"].append({"label": "no crash", "status": "failed" if kind == "crash" else "unknown", "backend": "execution",
                                "detail": "the code under contract ended the process (%s)" % rc, "model": {}, "choices": {}})
        elif not rec["incomplete"] and not rec["open"]:
            if rec["paths"] == 0:
                rec["incomplete"] = "vacuous: no path of the contract completed"
            elif rec["discharged"] == 0:
                rec["incomplete"] = "vacuous: no obligation generated"
        return tu, rec

    results = list(ex.map(run_contract, jobs))

    # ---- wide pass: the same obligations on paths whose sizes (beyond the exhaustive bound) and branches are drawn at random
    sized = [(tu, rec) for tu, rec in results if rec["sized"] and not any(o["status"] == "failed" for o in rec["open"])]
    if sized and not any(o["status"] == "failed" for _, rec in results for o in rec["open"]):
        each = max(2.0, float(os.environ.get("VP_WIDE_SECONDS", 900 if thorough else 45)) / len(sized))
        for tu, rec in sized:
            if time.time() - t0 > (5000 if thorough else 420):
                break
            rc, out, err = sh([tu.sym, rec["contract"], str(NCPU), "wide", str(each), str(seed)], timeout=each + 60,
                              env={"VP_TIMEOUT_MS": "10000" if thorough else "3000", "VP_PATH_SECONDS": str(min(each, 60))})
            recs = []
            for line in out.splitlines():
                if line.startswith("{\"contract\""):
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        pass
            if recs:
                w = merge(recs)
                rec["wide"] = {"paths": w["paths"], "discharged": w["discharged"], "undecided": w["wide_undecided"], "seconds": round(each, 1)}
                rec["open"] += [o for o in w["open"] if o["status"] == "failed"]
            elif rc not in (0, -999):
                rec["open"].append({"label": "no crash", "status": "failed", "backend": "execution", "detail": "the code under contract ended the process (%s)" % rc, "model": {}, "choices": {}})

    # ---- findings
    known = json.load(open(os.path.join(VERIF, "known_findings.json"))) if os.path.exists(os.path.join(VERIF, "known_findings.json")) else {"known": []}
    known = [k for k in known.get("known", []) if k["property"] == prop]
    used_known = set()
    violations, undecided, sampled = [], [], []

    def is_known(contract, label, choices):
        for i, k in enumerate(known):
            if k["contract"] == contract and k["label"] == label and all(choices.get(c) == v for c, v in k.get("choices", {}).items()):
                used_known.add(i)
                return True
        return False

    def replay_dir():
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        return d

    def write_replay(contract, label, body):
        p = os.path.join(replay_dir(), "%s-%s-%d.json" % (prop, contract, len(violations)))
        with open(p, "w") as f:
            json.dump(body, f, indent=1)
        return p

    def concrete_run(tu, name, args, timeout):
        rc, out, err = sh([tu.con, name] + args, timeout=timeout)
        for line in out.splitlines():
            if line.startswith("{\"contract\""):
                try:
                    return json.loads(line)
                except ValueError:
                    pass
        if rc not in (0, 1, 2, -999):
            return {"failed": True, "label": "no crash", "detail": "process ended with %s: %s" % (rc, err[-400:]), "inputs": {}, "tries": 0, "ran": 0}
        return {"failed": False, "label": "", "detail": "", "inputs": {}, "tries": 0, "ran": 0}

    def split_choices(inputs):
        ch = {k[7:]: int(v) for k, v in inputs.items() if k.startswith("choice:")}
        iv = {k: v for k, v in inputs.items() if not k.startswith("choice:")}
        return iv, ch

    def falsify(tu, rec, n_samples, budget):
        """look for a real failing input among solver models, then by sampling the precondition"""
        build_concrete(tu, scratch, con_engine)
        if not tu.con:
            return None
        tried = set()
        k = 0
        for o in rec["open"]:
            key = (o["label"], json.dumps(o["choices"], sort_keys=True))
            if not (o["status"] == "failed" or o["model"]) or key in tried or is_known(rec["contract"], o["label"], o["choices"]):
                continue
            tried.add(key)
            k += 1
            if k > 12:
                break
            g = os.path.join(scratch, "given-%s-%d.txt" % (rec["contract"], k))
            with open(g, "w") as f:
                for n, v in o["model"].items():
                    try:
                        f.write("%s %.17g\n" % (n, float(eval(v, {"__builtins__": {}})) if "/" in v else float(v)))
                    except Exception:
                        pass
                for n, v in o["choices"].items():
                    f.write("choice:%s %d\n" % (n, v))
            r = concrete_run(tu, rec["contract"], [g], 60)
            if r.get("failed"):
                iv, ch = split_choices(r["inputs"])
                if not is_known(rec["contract"], r["label"], ch):
                    r["from"] = "solver counterexample"
                    return r
        s = seed
        end = time.time() + budget
        left = n_samples
        while left > 0 and time.time() < end:
            r = concrete_run(tu, rec["contract"], ["--sample", str(min(left, 2000)), str(s)], max(5, end - time.time() + 5))
            left -= 2000
            s += 1000003
            if r.get("failed"):
                iv, ch = split_choices(r["inputs"])
                if not is_known(rec["contract"], r["label"], ch):
                    r["from"] = "sampled input"
                    return r
        return None

    def new_open(rec):
        return [o for o in rec["open"] if not is_known(rec["contract"], o["label"], o["choices"])]

    tot = {"discharged": 0, "failed": 0, "unknown": 0, "paths": 0, "wide": 0}
    for tu, rec in results:
        tot["discharged"] += rec["discharged"]
        tot["paths"] += rec["paths"]
        tot["wide"] += rec.get("wide", {}).get("discharged", 0)
        op = new_open(rec)
        failed = [o for o in op if o["status"] == "failed"]
        unknown = [o for o in op if o["status"] != "failed"]
        tot["failed"] += len(failed)
        tot["unknown"] += len(unknown)
        if not failed and not unknown and not rec["incomplete"]:
            continue
        left = (6000 if thorough else 760) - (time.time() - t0)       # a quick check has to answer within 900 s
        budget = 300 if thorough else 60
        if any(not v[1] for v in violations):
            budget = 10
        hit = falsify(tu, rec, 40000 if thorough else 12000, max(2, min(budget, left / 4)))
        if hit:
            iv, ch = split_choices(hit["inputs"])
            p = write_replay(rec["contract"], hit["label"], {"property": prop, "contract": rec["contract"], "contract_file": os.path.relpath(tu.src, VERIF), "functions": rec["functions"],
                             "violated": hit["label"], "detail": hit["detail"], "found_by": hit["from"], "inputs": iv, "choices": ch,
                             "failed_obligations": failed[:5], "how_to_replay": "compile contract_file with -DVP_CONCRETE against /repo's headers (see run.py) and give it these inputs"})
            violations.append((p, "", rec["contract"], hit["label"]))
        elif failed:
            p = write_replay(rec["contract"], failed[0]["label"], {"property": prop, "contract": rec["contract"], "contract_file": os.path.relpath(tu.src, VERIF), "functions": rec["functions"],
                             "violated": failed[0]["label"], "solver_output": failed[:5], "note": "no failing input found on the code compiled with double"})
            violations.append((p, " no-failing-input-found", rec["contract"], failed[0]["label"]))
        else:
            undecided.append({"contract": rec["contract"], "open": [o["label"] for o in unknown][:5], "why": rec["incomplete"] or unknown[0]["detail"][:200]})

    # ---- contract files the engine cannot compile any more: bounded stand-in on the compiled code
    broken = []
    for tu in tus:
        if tu.sym:
            continue
        build_concrete(tu, scratch, con_engine)
        if not tu.con:
            broken.append(tu)
            continue
        rc, out, err = sh([tu.con, "*", "--sample", "3000", str(seed)], timeout=300)
        hit = None
        for line in out.splitlines():
            if line.startswith("{\"contract\""):
                r = json.loads(line)
                sampled.append({"contract": r["contract"], "ran": r["ran"], "why": "symbolic build failed"})
                if r["failed"]:
                    iv, ch = split_choices(r["inputs"])
                    if not is_known(r["contract"], r["label"], ch):
                        p = write_replay(r["contract"], r["label"], {"property": prop, "contract": r["contract"], "contract_file": os.path.relpath(tu.src, VERIF), "violated": r["label"], "detail": r["detail"],
                                         "found_by": "sampled input", "inputs": iv, "choices": ch})
                        violations.append((p, "", r["contract"], r["label"]))
        if rc < 0 and rc != -999:
            p = write_replay(tu.name, "no crash", {"property": prop, "contract_file": os.path.relpath(tu.src, VERIF), "violated": "no crash", "detail": err[-500:]})
            violations.append((p, "", tu.name, "no crash"))

    # ---- the thorough tier also executes every contract on the compiled code (IEEE arithmetic, sampled)
    if thorough:
        for tu in tus:
            if not tu.sym:
                continue
            build_concrete(tu, scratch, con_engine)
            if not tu.con:
                continue
            rc, out, err = sh([tu.con, "*", "--sample", "5000", str(seed)], timeout=600)
            for line in out.splitlines():
                if line.startswith("{\"contract\""):
                    r = json.loads(line)
                    sampled.append({"contract": r["contract"], "ran": r["ran"], "why": "cross-check in double", "refuted": r["failed"], "label": r["label"]})

    write_evidence(prop, tier, seed, tus, results, known, used_known, violations, undecided, sampled, tot, build_s, time.time() - t0, broken)
    for i in sorted(used_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["what"]))
    for u in undecided:
        print("undecided: %s: %s (%s)" % (u["contract"], "; ".join(sorted(set(u["open"]))), u["why"][:300].replace("\n", " ")))
    for s in sampled:
        if s.get("refuted"):
            print("note: cross-check in double disagrees: %s: %s" % (s["contract"], s["label"]))
    print("%s %s: %d contracts, %d paths, %d obligations discharged, %d failed, %d unknown; %d more at sampled larger sizes; %.0f s" % (prop, tier, len(results), tot["paths"], tot["discharged"], tot["failed"], tot["unknown"], tot["wide"], time.time() - t0))
    for p, suffix, c, label in violations:
        print("  failed obligation: %s: %s" % (c, label))
    for p, suffix, c, label in violations:
        print("VIOLATION property=%s replay=%s%s" % (prop, p, suffix))
    if violations:
        return 1
    if broken:
        for tu in broken:
            print("error: %s does not compile against /repo:\n%s" % (tu.name, (tu.con_err or tu.sym_err)[:1500]))
        return 2
    return 0


def write_evidence(prop, tier, seed, tus, results, known, used_known, violations, undecided, sampled, tot, build_s, wall, broken):
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    entry = next((c for c in man["checks"] if c["property"] == prop), {})
    assume = json.load(open(os.path.join(VERIF, "contracts", "assumptions.json")))
    trusted = assume["common_trusted"] + assume.get("trusted", {}).get(prop, [])
    obligations = tot["discharged"] + tot["failed"] + tot["unknown"]
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": entry.get("level", "other"),
        "coverage": {
            "obligations": obligations, "discharged": tot["discharged"],
            "checker_cmd": "python3 run.py %s %s" % (prop, tier),
            "trusted_base": trusted,
            "explanation": assume.get("bounds", {}).get(prop, "no bound: every function under contract has fixed-size data and all inputs are symbolic"),
            "contracts": [{"contract": r["contract"], "functions": r["functions"], "paths": r["paths"], "discharged": r["discharged"], "open": len(r["open"]),
                           "symbolic_inputs": r["inputs"], "seconds": round(r["seconds"], 2), "solver_seconds": round(r["solver_seconds"], 2), "by": r["by"], "incomplete": r["incomplete"],
                           "larger_sizes_sampled": r.get("wide", "none: the contract has no sizes")} for _, r in results],
            "undecided": undecided, "executed_in_double": sampled, "build_seconds": round(build_s, 1),
            "known_findings": [known[i]["what"] for i in sorted(used_known)],
        },
        "assumptions": assume["common"] + assume.get("per_property", {}).get(prop, []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
