"""
Runs the workload of one property in one or more execution modes (worker
processes), watches the workers, decides and writes the evidence.

exit 0  the property held on everything observed
exit 1  violated (a VIOLATION line names the replay file)
exit 2  inconclusive (a worker could not be run, too little was observed)
"""

import ast
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable
REPO_SRC = "/repo/src"

# cpu seconds that a single case may burn before it is judged to hang; the
# ordinary cost of a case is below a second (the first ones, which include
# compilation, stay below a minute)
HANG_CPU = 400.0
# generous wall clock limit of a run, its expiry is inconclusive
WALL = {"quick": 840.0, "thorough": 6 * 3600.0}

MODES = {
    "jit": dict(NUMBA_NUM_THREADS="4"),
    "bounds": dict(NUMBA_NUM_THREADS="3", NUMBA_BOUNDSCHECK="1", MALLOC_CHECK_="3", MALLOC_PERTURB_="165"),
    "interp": dict(NUMBA_DISABLE_JIT="1"),
    "mt": dict(NUMBA_NUM_THREADS="8", MALLOC_PERTURB_="77"),
    "omp": dict(NUMBA_NUM_THREADS="6", NUMBA_THREADING_LAYER="omp", MALLOC_PERTURB_="203"),
    "py": dict(NUMBA_NUM_THREADS="2", MALLOC_PERTURB_="90"),
}


def cpu_seconds(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
        f = s[s.rindex(")") + 2 :].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError):
        return None


def modes_of(pid):
    """The execution modes the scenarios of the property ask for."""
    path = os.path.join(VERIF, "checks", pid.lower() + ".py")
    tree = ast.parse(open(path).read())
    out = []
    default = ["jit", "bounds"]
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "scenario":
                    ms = default
                    for k in d.keywords:
                        if k.arg == "modes":
                            ms = list(ast.literal_eval(k.value))
                    out += [x for x in ms if x not in out]
    return out


def run(pid, tier, seed, only=None, mode_only=None):
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    workers = []
    try:
        for mode in modes_of(pid):
            if mode_only and mode != mode_only:
                continue
            env = dict(os.environ)
            env.update(MODES[mode])
            cache = os.path.join(tmp, "nbc-" + mode)
            os.mkdir(cache)
            env.update(
                NUMBA_CACHE_DIR=cache,
                PYTHONPATH=REPO_SRC,
                PYTHONHASHSEED=str(sorted(MODES).index(mode)),
                PYTHONDONTWRITEBYTECODE="1",
                MPLBACKEND="agg",
                OMP_NUM_THREADS=env.get("NUMBA_NUM_THREADS", "2"),
                OPENBLAS_NUM_THREADS="1",
                PYTHONFAULTHANDLER="1",
                VERIF_SCRATCH=tmp,
            )
            out = os.path.join(tmp, mode + ".json")
            beat = os.path.join(tmp, mode + ".beat")
            log = open(os.path.join(tmp, mode + ".log"), "w+")
            cmd = [PY, "-W", "ignore", os.path.join(HERE, "worker.py"), pid, "--mode", mode,
                   "--seed", str(seed), "--tier", tier, "--out", out, "--beat", beat]
            if only:
                cmd += ["--only", only]
            p = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=tmp, start_new_session=True)
            workers.append(dict(mode=mode, p=p, out=out, beat=beat, log=log, case=None, cpu0=0.0, state="run"))
        tic = time.time()
        while any(w["state"] == "run" for w in workers):
            time.sleep(0.25)
            for w in workers:
                if w["state"] != "run":
                    continue
                rc = w["p"].poll()
                if rc is not None:
                    w["state"] = "done" if rc == 0 and os.path.exists(w["out"]) else "died"
                    w["rc"] = rc
                    continue
                try:
                    with open(w["beat"]) as f:
                        case = f.read().strip()
                except OSError:
                    case = ""
                cpu = cpu_seconds(w["p"].pid)
                if cpu is None:
                    continue
                if case != w["case"]:
                    w["case"], w["cpu0"] = case, cpu
                elif cpu - w["cpu0"] > HANG_CPU:
                    w["state"] = "hang"
                    kill(w["p"])
                elif time.time() - tic > WALL[tier]:
                    w["state"] = "wall"
                    kill(w["p"])
        results, crashes, problems = [], [], []
        for w in workers:
            if w["state"] == "done":
                with open(w["out"]) as f:
                    results.append(json.load(f))
                continue
            try:
                with open(w["beat"]) as f:
                    case = f.read().strip()
            except OSError:
                case = ""
            w["log"].seek(0)
            tail = w["log"].read()[-3000:]
            m = re.match(r"\d+ (\S+):(\d+)$", case)
            if w["state"] == "hang" and m:
                crashes.append(dict(scenario=m[1], index=int(m[2]), mode=w["mode"],
                                    message=f"no progress: the case burnt {HANG_CPU} cpu seconds", case=tail))
            elif w["state"] == "died" and m and w["rc"] < 0 and -w["rc"] != signal.SIGKILL:
                crashes.append(dict(scenario=m[1], index=int(m[2]), mode=w["mode"],
                                    message=f"the process was killed by {signal.Signals(-w['rc']).name}", case=tail))
            else:
                problems.append(f"worker {w['mode']} {w['state']} rc={w.get('rc')} at '{case}': {tail[-1500:]}")
        return results, crashes, problems
    finally:
        for w in workers:
            if w["p"].poll() is None:
                kill(w["p"])
            w["log"].close()
        shutil.rmtree(tmp, ignore_errors=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = mode_only = None
    if len(argv) > 2 and argv[1] == "--replay":
        with open(argv[2]) as f:
            r = json.load(f)
        only, mode_only, seed, tier = f"{r['scenario']}:{r['index']}", r["mode"], r["seed"], r["tier"]

    tic = time.time()
    results, crashes, problems = run(pid, tier, seed, only, mode_only)
    violations = [v for r in results for v in r["violations"]] + crashes
    problems += [x for r in results for x in r["inconclusive"]]

    # what is listed is reported as known, anything else is a violation
    known = known_findings(pid)
    new, old = [], {}
    for v in violations:
        for k in known:
            if k["scenario"] == v["scenario"] and re.search(k["match"], v["message"]):
                old[k["what"]] = v
                break
        else:
            new.append(v)

    evaluations = sum(r["cases"] for r in results)
    keys = set().union(*[set(r["keys"]) for r in results]) if results else set()
    observations = sum(r["observations"] for r in results)
    by_oracle, features, per = {}, {}, {}
    for r in results:
        for k, v in r["by_oracle"].items():
            by_oracle[k] = by_oracle.get(k, 0) + v
        for k, v in r["features"].items():
            features[k] = features.get(k, 0) + v
        for k, v in r["per_scenario"].items():
            q = per.setdefault(k, dict(cases=0, observations=0, modes={}))
            q["cases"] += v["cases"]
            q["observations"] += v["observations"]
            q["modes"][r["mode"]] = dict(cases=v["cases"], wall_s=v["wall_s"])
    if not only:
        for k, v in per.items():
            if v["cases"] and not v["observations"] and not violations:
                problems.append(f"scenario {k} observed nothing")
        if not observations and not violations:
            problems.append("nothing was observed")
        for r in results:
            if not r["library"].startswith(REPO_SRC):
                problems.append(f"the library was imported from {r['library']}")

    evidence = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(keys),
            rule=(
                "A case is one run of a scenario with the inputs or the operation history drawn from "
                "(VERIF_SEED, scenario, index). It counts as distinct and nontrivial if the digest of its "
                "inputs and history is new and at least one oracle has compared an observed result with the "
                "reference during the case."
            ),
            samples=[s for r in results for s in r["samples"]][:12],
            oracle_observations=observations,
            observations_by_oracle=by_oracle,
            workload_features=features,
            scenarios=per,
            modes={r["mode"]: dict(environment=MODES[r["mode"]], cases=r["cases"], wall_s=round(r["wall_s"], 2)) for r in results},
        ),
        assumptions=[
            "the oracles (NumPy, SciPy, SymPy and the reference models in /verif/checks) are right",
            "only the executions produced by the workload are judged",
        ],
        wall_s=round(time.time() - tic, 2),
        violations=len(new),
    )
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{pid}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)

    for k in known:
        if k["what"] in old:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for j, v in enumerate(new[:10]):
            rp = os.path.join(VERIF, "replays", f"{pid}-{v['scenario']}-{v['index']}-{v['mode']}.json")
            if not only:
                with open(rp, "w") as f:
                    json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1)
            print(f"[{v['mode']}] {v['scenario']}:{v['index']} {v['message']}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if problems:
        for x in problems[:10]:
            print(f"INCONCLUSIVE property={pid} {x}")
        return 2
    print(
        f"HELD property={pid} tier={tier} seed={seed} cases={evaluations} distinct={len(keys)} "
        f"observations={observations} wall={evidence['wall_s']}s"
    )
    return 0


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code)
