"""python3-vt -m nnv.run Pxx --tier quick --seed 1 --out file"""
import sys, json, argparse, importlib, time, traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    from .vc import Proof
    from .alg import Unsupported
    m = importlib.import_module(f"contracts.{a.pid.lower()}")
    p = Proof(a.pid, a.tier, a.seed)
    t0 = time.time()
    err = None
    for part in m.PARTS:
        try:
            part(p)
        except Unsupported as e:
            p.add(f"{part.__name__}", "unsupported", "", 0, f"{e}")
        except (Exception, RecursionError) as e:
            p.add(f"{part.__name__}", "unsupported", "", 0, f"{type(e).__name__}: {e}")
            if a.v:
                traceback.print_exc()
    out = p.result()
    out["error"] = err
    out["time"] = round(time.time() - t0, 2)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1)
    if a.v or not a.out:
        for o in p.obls:
            print(f"{o['status']:12s} {o['time']:7.3f} {o['name']}   {o['detail'][:200] if o['status'] != 'proved' or a.v else ''}")
        print(len(p.obls), "obligations", out["time"], "s")


if __name__ == "__main__":
    main()
