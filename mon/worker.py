"""Runs (a part of) the scenarios of one property in one execution mode."""

import argparse
import gc
import importlib
import json
import os
import sys
import time
import warnings

sys.setswitchinterval(1e-4)
warnings.filterwarnings("ignore")

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))

import numpy as np  # noqa: E402

from mon import core  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("pid")
    p.add_argument("--mode", default="jit")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--out", required=True)
    p.add_argument("--beat", required=True)
    p.add_argument("--only", default=None, help="scenario:index")
    a = p.parse_args()

    beat = os.open(a.beat, os.O_RDWR | os.O_CREAT)

    def heartbeat(txt):
        os.pwrite(beat, txt.encode().ljust(256)[:256], 0)

    heartbeat("import - 0")
    importlib.import_module(a.pid.lower())
    import sigmaepsilon.math as sem

    m = core.Monitor()
    cases = 0
    keys = set()
    trivial = 0
    violations = []
    inconclusive = []
    samples = []
    per = {}
    tic = time.time()
    n_case = 0
    for sc in core.SCENARIOS:
        if a.mode not in sc.modes:
            continue
        n = sc.count(a.tier)
        share = [x for x in sc.modes]
        k = share.index(a.mode)
        if a.only:
            name, idx = a.only.split(":")
            if name != sc.name:
                continue
            todo = [int(idx)]
        else:
            todo = range(k, n, len(share))
        bad = 0
        done = 0
        t0 = time.time()
        obs0 = m.observations
        for i in todo:
            if bad >= 2:
                break
            n_case += 1
            heartbeat(f"{n_case} {sc.name}:{i}")
            m.begin()
            rng = core.case_rng(a.seed, a.pid, sc.name, i)
            try:
                sc.fn(m, rng, i)
            except core.Violated as e:
                msg = str(e)
            except core.HarnessProblem as e:
                inconclusive.append(f"{sc.name}:{i} {e}")
                continue
            except MemoryError as e:
                inconclusive.append(f"{sc.name}:{i} memory {e}")
                continue
            except Exception as e:
                msg = f"unexpected {type(e).__name__}: {core.short(str(e))} at {core.where(e)}"
            else:
                msg = None
            done += 1
            cases += 1
            if m.case_obs == 0:
                trivial += 1
            else:
                keys.add(sc.name + m.case_key.hexdigest())
            if msg is not None:
                bad += 1
                violations.append(
                    dict(
                        scenario=sc.name,
                        index=i,
                        mode=a.mode,
                        message=msg,
                        case=core.jsonable(m.case_notes),
                    )
                )
            elif done == 1 or (done == 2 and len(samples) < 6):
                samples.append(
                    dict(scenario=sc.name, index=i, case=core.jsonable(m.case_notes), observations=m.case_obs)
                )
        per[sc.name] = dict(cases=done, observations=m.observations - obs0, wall_s=round(time.time() - t0, 3))
        gc.collect()
    heartbeat("end - 0")
    res = dict(
        mode=a.mode,
        cases=cases,
        keys=sorted(keys),
        trivial=trivial,
        observations=m.observations,
        by_oracle=m.by_oracle,
        features=m.features,
        per_scenario=per,
        violations=violations,
        inconclusive=inconclusive[:20],
        samples=samples,
        wall_s=time.time() - tic,
        library=os.path.dirname(sem.__file__),
    )
    tmp = a.out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, a.out)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
