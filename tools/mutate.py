#!/usr/bin/env python3
"""mutate.py OUT [PER_FILE] [SEED] [FILE_SUBSTRING...]: plants small random changes in copies of /repo's headers and reports which of them
no check of the listed properties notices (each survivor is either harmless or a gap in the contracts)."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, W, P = "core/include/humoto/", "modules/wpg04/include/wpg04/", "modules/pepper_mpc/include/pepper_mpc/"
FILES = {H+"constraints_base.h": "C01 C04 C02", H+"constraints_mixins.h": "C01 C03 C02 C04", H+"constraints.h": "C01 C02 C04", H+"task.h": "C05 C01 C18", H+"hierarchy_level.h": "C03 C05 C02 C04",
 H+"hierarchy.h": "C03 C05 C07 C02", H+"qp_problem.h": "C07 C02", H+"solution.h": "C06", H+"violations.h": "C04", H+"active_set.h": "C05 C04", H+"control_problem.h": "C08 C06", H+"utility.h": "C06 C03",
 H+"solver.h": "C17 C18", H+"leftright.h": "C13 C14", H+"task_generic.h": "C25 C18", H+"configurable_optimization_problem.h": "C18",
 "core/include/rigid_body/triple_integrator.h": "C09", "core/include/rigid_body/rotary_state.h": "C10", "core/include/eigentools/cross_product.h": "C10 C16", "core/include/rigid_body/cubic_polynomial.h": "C11",
 "core/include/walking/foot_trajectory.h": "C11", "core/include/walking/point_mass_model_6z.h": "C12", "core/include/walking/robot_foot_parameters.h": "C13 C18", "core/include/walking/stance_finite_state_machine.h": "C14",
 "core/include/eigentools/blockmatrix_base.h": "C15", "core/include/eigentools/blockmatrix.h": "C15", "core/include/eigentools/blockmatrix_kronecker.h": "C15", "core/include/eigentools/eigentools.h": "C16",
 "core/include/kktsolver.h": "C17 C18", "core/include/config.h": "C18", "core/include/config/define_accessors.h": "C18", "core/include/rigid_body/rigid_body_state.h": "C10 C18 C20", "core/include/rigid_body/point_mass_state.h": "C12 C18 C22",
 "bridges/config_msgpack/interface/config_msgpack/reader.h": "C18", "bridges/config_msgpack/interface/config_msgpack/writer.h": "C18",
 "bridges/obstacle_avoidance/obstacles/obstacle_base.h": "C25", "bridges/obstacle_avoidance/obstacles/obstacle_sphere.h": "C25", "bridges/obstacle_avoidance/task_obstacle_avoidance.h": "C25",
 "bridges/config_yaml/interface/config_yaml/reader.h": "C18", "bridges/config_yaml/interface/config_yaml/writer.h": "C18",
 "bridges/qpOASES/interface/qpoases/solver.h": "C26", "bridges/qpmad/interface/qpmad/solver.h": "C26", "bridges/QuadProgpp/interface/quadprogpp/solver.h": "C26",
 W+"preview_horizon.h": "C19 C20", W+"mpc_wpg.h": "C20 C21", W+"model.h": "C20", W+"model_state.h": "C20 C18", W+"common.h": "C20 C18", W+"task_copbounds.h": "C21", W+"task_footstepbounds.h": "C21", W+"task_terminalconstraint.h": "C21",
 W+"task_comvelocity.h": "C21", W+"task_copvelocity.h": "C21", W+"task_copposition.h": "C21",
 P+"common.h": "C22 C23 C18", P+"model.h": "C22 C23", P+"model_state.h": "C22 C18", P+"two_point_mass_model.h": "C22", P+"preview_horizon.h": "C23", P+"mpc_mg.h": "C23 C24"}
for t in "baseaccelerationbounds basejerk basepositionref basevelocitybounds basevelocityref bodyjerk bodypositionbounds bodypositionref copcentering coppositionbounds".split():
    FILES[P+"task_%s.h" % t] = "C24 C18"

OPS = [(r"(?<![<>=!+\-*/])\+(?![+=])", "-"), (r"(?<![\-=(<,e])\s-\s(?![\-=>])", " + "), (r"\+=", "-="), (r"-=", "+="), (r"<=", "<"), (r">=", ">"), (r"(?<![<>\w])\s<\s(?![<=])", " <= "),
       (r"(?<![>\-])\s>\s(?![>=])", " >= "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"),
       (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])2\.0", "1.0"), (r"(?<![\w.])0\.0", "1.0"), (r"\brows\(\)", "cols()"), (r"\bcols\(\)", "rows()"), (r"Lower", "Upper"), (r"Upper", "Lower"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"),
       (r"\.transpose\(\)", ""), (r"LEFT", "RIGHT"), (r"RIGHT", "LEFT"), (r"\+\+", "--"), (r"(?<=\s)-(?=[a-zA-Z(])", ""), (r"\*\s", "/ "), (r"\s/\s", " * "), (r"\bx\(\)", "y()"), (r"\by\(\)", "x()"),
       (r"lower", "upper"), (r"upper", "lower"), (r"\.getOffset\(\)|\bgetOffset\(\)", "0"), (r"offset_", "length_"), (r"length_", "offset_"), (r"previous", "next"), (r"subsampling", "sampling"), (r"velocity_", "acceleration_"), (r"position_", "velocity_"), (r"!(?=[a-zA-Z(])", ""),
       (r"\bbegin\(\)", "end()"), (r"front\(\)", "back()"), (r"noalias\(\) \+=", "noalias() ="), (r"setZero\(", "setOnes("), (r"Zero\(", "Ones("), (r"sampling_time_ms", "subsampling_time_ms")]
DELETE = re.compile(r"^\s*[\w:\.\->\[\]()_, +*<>/&!]+(=|\.|\()[^{}]*;\s*$")


def candidates(text):
    out, comment = [], False
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        code = line.split("//")[0]
        if not s or s.startswith(("//", "*", "#")) or "log" in code.lower() or "HUMOTO_ASSERT" in code or "HUMOTO_THROW" in code or "HUMOTO_LOCAL" in code or "template" in code or s.startswith(("class", "friend", "using", "typedef", "const std::string", "for (")) and False:
            continue
        for rx, rep in OPS:
            for m in re.finditer(rx, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                    continue
                out.append((n, code[:m.start()] + rep + code[m.end():]))
        if DELETE.match(code) and not s.startswith(("return", "using", "typedef", "const ", "std::", "double ", "etools::", "Eigen::", "std::size_t", "virtual", "case", "break")) and "(" in code:
            out.append((n, ""))
    return out


def main():
    out, per, seed, subs = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 6, int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[4:]
    rnd = random.Random(seed)
    jobs = []
    for f, props in FILES.items():
        if not os.path.exists("/repo/" + f) or subs and not any(x in f for x in subs):
            continue
        c = candidates(open("/repo/" + f).read())
        rnd.shuffle(c)
        jobs += [(f, n, new, props.split()) for n, new in c[:per]]

    def run(j):
        f, n, new, props = j
        d = tempfile.mkdtemp(prefix="mutant-")
        try:
            for x in ("core", "modules", "bridges"):
                shutil.copytree("/repo/" + x, d + "/" + x, symlinks=True, ignore=shutil.ignore_patterns("_build", ".git", "*.m", "doc"))
            lines = open(d + "/" + f).read().split("\n")
            old, lines[n] = lines[n], new
            open(d + "/" + f, "w").write("\n".join(lines))
            verdict = []
            for p in props:
                r = subprocess.run(["python3", VERIF + "/run.py", p, "quick"], env=dict(os.environ, HUMOTO_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                t = r.stdout.decode(errors="replace")
                if r.returncode == 1:
                    w = re.search(r"failed obligation: (.*)", t)
                    verdict.append("%s KILLED%s: %s" % (p, " (no input)" if "no-failing-input" in t else "", w.group(1) if w else ""))
                    break
                if r.returncode != 0:
                    verdict.append("%s rc=%d" % (p, r.returncode))
                    if "does not compile" in t:
                        break
                elif "undecided" in t:
                    verdict.append("%s undecided" % p)
            state = "killed" if any("KILLED" in v for v in verdict) else "invalid" if any("rc=" in v for v in verdict) else "SURVIVED"
            with open(out, "a") as o:
                o.write("%s %s:%d [%s]\n    - %s\n    + %s\n" % (state, f, n + 1, "; ".join(verdict) or ",".join(props), old.strip(), new.strip()))
            return state
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "3"))) as ex:
        r = list(ex.map(run, jobs))
    print({k: r.count(k) for k in set(r)})


main()
