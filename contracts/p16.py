"""P16: selection of back end, device and precision.

Contracts of set_backend, use_gpu, use_32_bit and of the import of the package, over the
module-level state of every module of the package:
  invariant   what is in use (numerical module, array constructor, gradients, types, device; in
              every module of the package) is what the ghost state (selected back end, device,
              precision) says, and depends on nothing else
  import      ghost = (the environment's back end if it is installed, numpy otherwise; ...)
  set_backend ghost' = (argument, same device, same precision); an unknown name: ValueError, state unchanged
  ...
The states satisfying the invariant are finitely many: they are computed as the least set that
contains the state after the import and is closed under all operations with all arguments, and
every obligation is evaluated at every state of it (nnv/selstate.py executes the real modules).
"""
from .common import *
import subprocess, json, sys, os, concurrent.futures as cf
from nnv import load as L

CONFIGS = [dict(torch=t, cuda=c, jax=j, env=e, gpu=g)
           for t, c in ((True, False), (True, True), (False, False)) for j in (True, False)
           for e in (None, "numpy", "scipy", "autograd", "torch", "jax", "another") for g in (None, "1")]


def one(cfg):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = {k: v for k, v in os.environ.items() if not k.startswith("NANNOS_")}
    env.update(NNV_REPO=L.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        r = subprocess.run([sys.executable, "-m", "nnv.selstate", json.dumps(cfg)], cwd=here, env=env, capture_output=True, text=True, timeout=200)
        return json.loads(r.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return dict(undecided="time", obligations={}, fails=[], states=0, operations=0, files=[])
    except Exception as e:
        return dict(undecided=f"{type(e).__name__}: {e}: {r.stderr[-300:]}", obligations={}, fails=[], states=0, operations=0, files=[])


def name(c):
    inst = [b for b in ("torch", "jax") if c[b]] + (["cuda"] if c["cuda"] else [])
    return f"installed: {', '.join(inst) or 'neither torch nor jax'}; NANNOS_BACKEND={c['env']}, NANNOS_GPU={c['gpu']}"


def machine(P):
    P.fn("__init__ (module body)", "__init__.set_backend", "__init__.use_gpu", "__init__.use_32_bit", "__init__.get_backend", "__init__.get_device", "__init__.get_types",
         "__init__._reload_package", "__init__._delvar", "__init__._del_vars", "__init__.has_torch", "__init__.has_jax", "__init__._has_cuda",
         "module bodies of all modules of the package")
    P.trust("external libraries are stubs named after what they are (numpy, autograd.numpy, torch, jax.numpy, ...); the import system is Python's own",
            "a name that is none of the five back ends is represented by one opaque string on which only comparisons are decided")
    P.assume("the environment variables do not change before an explicit selection (after it, they may: the selection stays)", "which libraries are installed does not change within a process")
    t0 = 0.0
    total = [0, 0, 0]
    import time
    with cf.ThreadPoolExecutor(7) as ex:
        t0 = time.time()
        rs = list(ex.map(one, CONFIGS))
    dt = (time.time() - t0) / max(1, len(rs))
    for c, r in zip(CONFIGS, rs):
        nm = name(c)
        for f in r.get("files", []):
            P.files.add(f)
        if r["undecided"]:
            P.add(nm, "unsupported", "", dt, r["undecided"])
        fails = {f[0]: f for f in r["fails"]}
        softs = {f[0]: f for f in r.get("soft", [])}
        for o in sorted(r["obligations"]):
            if o in fails:
                _, det, hist = fails[o]
                P.add(f"{nm}: {o}", "refuted", "evaluation at every state", 0, f"{det} after {hist}")
                ops = [h for h in hist if isinstance(h, list)]
                if not c["cuda"] and c["gpu"] is None:
                    P.case(dict(ops=[[a, "fake" if str(b).startswith("<any") else b] for a, b in ops], env=c["env"] or "",
                                missing=[b for b in ("torch", "jax") if not c[b]]))
            elif o in softs:
                P.add(f"{nm}: {o}", "undecided", "evaluation at every state", 0, f"{softs[o][1]} after {softs[o][2]}")
            elif not r["undecided"]:
                P.add(f"{nm}: {o}", "proved", "evaluation at every state", 0, f"{r['obligations'][o]} instances")
        if not r["undecided"]:
            P.add(f"{nm}: the invariant is closed under all operations", "proved", "evaluation at every state", dt, f"{r['states']} states, {r['operations']} transitions")
            total[0] += 1
            total[1] += r["states"]
            total[2] += r["operations"]
    P.soft("all configurations were explored", total[0] == len(CONFIGS), f"{total[0]} of {len(CONFIGS)}")
    P.notes.append(f"{total[1]} states and {total[2]} transitions in {total[0]} configurations")


PARTS = [machine]
