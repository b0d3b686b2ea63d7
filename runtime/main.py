import sys, os, json, time, traceback, hashlib, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--prop", required=True)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--budget", type=float, default=30)
ap.add_argument("--max", type=int, default=100000)
ap.add_argument("--backend", default="numpy")
ap.add_argument("--replay")
ap.add_argument("--cases", help="extra cases to try first (json list)")
ap.add_argument("--out")
a = ap.parse_args()
import common
from common import *


def jd(o):
    if isinstance(o, np.generic):
        return o.item()
    return str(o)


def main():
    t0 = time.time()
    import props_em
    import props_misc
    gen = getattr(props_em, "gen_" + a.prop, None) or getattr(props_misc, "gen_" + a.prop)
    run = getattr(props_em, "run_" + a.prop, None) or getattr(props_misc, "run_" + a.prop)
    nn = common.load(a.backend)
    assert nn.get_backend() == a.backend or a.prop == "P16", (nn.get_backend(), a.backend)
    res = dict(prop=a.prop, backend=a.backend, seed=a.seed, evaluations=0, distinct=0, skipped=0, harness_errors=0,
               failures=[], samples=[], harness_samples=[])
    seen = set()

    def one(case):
        res["evaluations"] += 1
        h = hashlib.sha1(json.dumps(case, sort_keys=True, default=jd).encode()).hexdigest()
        try:
            run(nn, json.loads(json.dumps(case, default=jd)))
            if h not in seen:
                seen.add(h)
                res["distinct"] += 1
            if len(res["samples"]) < 2:
                res["samples"].append(case)
            return None
        except Skip:
            res["skipped"] += 1
        except Fail as e:
            return str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if os.path.abspath(f.filename).startswith(REPO + "/nannos")]
            if isinstance(e, (AttributeError, TypeError)) and not inrepo:
                res["harness_errors"] += 1
                if len(res["harness_samples"]) < 3:
                    res["harness_samples"].append("".join(traceback.format_exception(e))[-1500:])
                return None
            if inrepo:
                f = inrepo[-1]
                return f"raised {type(e).__name__}: {e} at {os.path.relpath(f.filename, REPO)}:{f.lineno} in {f.name}"
            res["harness_errors"] += 1
            if len(res["harness_samples"]) < 3:
                res["harness_samples"].append("".join(traceback.format_exception(e))[-1500:])
        return None

    if a.replay:
        d = json.load(open(a.replay))
        case = d["case"]
        msg = one(case)
        print("REPLAY", a.prop, "FAILS: " + msg if msg else "passes")
        return 1 if msg else 0
    cases = json.load(open(a.cases)) if a.cases else []
    k = 0
    while time.time() - t0 < a.budget and res["evaluations"] < a.max and len(res["failures"]) < 3:
        if k < len(cases):
            case = cases[k]
        else:
            case = gen(np.random.default_rng([a.seed, k, int(a.prop[1:])]))
        k += 1
        msg = one(case)
        if msg:
            res["failures"].append(dict(case=case, detail=msg, backend=a.backend))
    res["wall_s"] = time.time() - t0
    s = json.dumps(res, default=jd)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(json.dumps({k: v for k, v in res.items() if k != "samples"}, default=jd, indent=1))
    return 0


sys.exit(main())
