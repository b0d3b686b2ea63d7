#!/usr/bin/env python3
"""Driver: python3-vt check.py P01 [--tier quick|thorough]

1. the deductive part: nnv extracts the functions of /repo a property depends on
   (mechanically, from the current source), generates the obligations of their
   contracts and discharges them;
2. the bounded companion: the same property on concrete inputs of the real code,
   which supplies failing inputs and stands in (labelled bounded) where the
   source is outside of the engine's reach.

exit 0: held;  exit 1 + VIOLATION line: broken.
"""
import sys, os, json, time, subprocess, argparse, hashlib, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
RUNPY = os.environ.get("NNV_RUNPY", "/opt/venv/bin/python")
REPO = os.environ.get("NNV_REPO", "/repo")
T0 = time.time()

# seconds of the companion per backend: (quick, thorough)
BUDGET = {"numpy": (24, 240), "torch": (14, 90), "autograd": (8, 60), "scipy": (8, 60), "jax": (0, 120)}
NPROC = {"numpy": (3, 4), "torch": (1, 1), "autograd": (1, 1), "scipy": (1, 1), "jax": (0, 1)}
ONLY_NUMPY = {"P16", "P19", "P11", "P10", "P17", "P25"}     # properties whose code does not depend on the backend (or runs all itself)


def companion(prop, tier, seed, extra, outdir, replay=False):
    ti = 0 if tier == "quick" else 1
    procs = []
    env = dict(os.environ, MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", JAX_PLATFORMS="cpu",
               PYVISTA_OFF_SCREEN="true", NNV_REPO=REPO)
    env.pop("NANNOS_BACKEND", None)
    exf = None
    if extra:
        exf = os.path.join(outdir, "extra.json")
        json.dump(extra, open(exf, "w"))
    plan = []
    for b in BUDGET:
        n, s = NPROC[b][ti], BUDGET[b][ti]
        if prop in ONLY_NUMPY and b != "numpy":
            if not (b == "torch" and prop in ("P10", "P11")):
                continue
        if prop == "P24":
            n, s = {"torch": (3, max(s, 30)), "autograd": (3, max(s, 40))}.get(b, (1, 2))
        if prop == "P16" and b == "numpy":
            n, s = 6, max(s, 45)
        for k in range(n):
            plan.append((b, k, s))
    if replay:
        plan = [("numpy", 0, 45)]
    for b, k, s in plan:
        out = os.path.join(outdir, f"{b}{k}.json")
        cmd = [RUNPY, os.path.join(HERE, "runtime", "main.py"), "--prop", prop, "--seed", str(seed * 1000 + k), "--budget", str(s),
               "--backend", b, "--out", out]
        if exf and k == 0 and b == "numpy":
            cmd += ["--cases", exf]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=outdir)
        procs.append((b, k, out, p, s))
    return procs


def collect(procs):
    res, bad = [], []
    for b, k, out, p, s in procs:
        try:
            o, _ = p.communicate(timeout=s + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        if os.path.exists(out):
            try:
                res.append(json.load(open(out)))
                continue
            except Exception:
                pass
        bad.append(f"{b}#{k}: {o[-1500:] if o else 'no output'}")
    return res, bad


def known():
    """findings (not repaired) listed in known-findings.txt:  finding: property=Pxx <text>"""
    out = {}
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: property="):
                pid, _, txt = l[len("finding: property="):].strip().partition(" ")
                out.setdefault(pid, []).append(txt)
    return out


def listing(obls, most=250000):
    """names of the obligations; where they are very many, obligations differing only by the path are counted together"""
    import re
    from collections import Counter
    names = [o["name"] + " [" + o.get("by", "?") + "]" for o in obls]
    for pat in (None, r"\[[^\[\]]*=[^\[\]]*\]|\([^()]*=[^()]*\)", r"\[[^\[\]]*\]|\([^()]*\)"):
        if pat:
            names = [re.sub(pat, "", n) for n in names]
        c = Counter(names)
        out = [n if k == 1 else f"{n} (x {k})" for n, k in c.items()]
        if sum(map(len, out)) < most:
            return out
    return out[:2000]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-companion", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import tempfile, shutil
    outdir = tempfile.mkdtemp(prefix=f"nnv_{prop}_")
    try:
        return run(prop, tier, seed, outdir, a)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def prove(prop, tier, seed, outdir):
    """runs the verifier in its own process (crash and time isolation)"""
    out = os.path.join(outdir, "proof.json")
    env = dict(os.environ, NNV_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    p = subprocess.Popen([sys.executable, "-m", "nnv.run", prop, "--tier", tier, "--seed", str(seed), "--out", out],
                         cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, out


def run(prop, tier, seed, outdir, a):
    pr = None
    if not a.no_proof and os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py")):
        pr = prove(prop, tier, seed, outdir)
    procs = [] if a.no_companion else companion(prop, tier, seed, None, outdir)
    res, bad = collect(procs)
    proof = None
    if pr:
        p, out = pr
        try:
            o, _ = p.communicate(timeout=450 if tier == "quick" else 3000)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        if os.path.exists(out):
            proof = json.load(open(out))
        else:
            proof = dict(obligations=[], error=(o or "")[-3000:])
        # the verifier's counterexamples are replayed on the real code
        if proof.get("cases") and not a.no_companion and not any(r["failures"] for r in res):
            res2, bad2 = collect(companion(prop, tier, seed, proof["cases"], outdir, replay=True))
            res += res2
            bad += bad2
    # ------------------------------------------------------------ decision
    fails = [dict(f, seed=r["seed"]) for r in res for f in r["failures"]]
    obls = proof["obligations"] if proof else []
    refuted = [o for o in obls if o["status"] == "refuted"]
    proved = [o for o in obls if o["status"] == "proved"]
    other = [o for o in obls if o["status"] not in ("proved", "refuted")]
    ev = sum(r["evaluations"] for r in res)
    dist = sum(r["distinct"] for r in res)
    violation = None
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    rp = os.path.join("evidence", "replay", f"{prop}.json")
    if fails:
        f = fails[0]
        violation = dict(property=prop, kind="failing input", detail=f["detail"], backend=f["backend"], case=f["case"], seed=f["seed"],
                         refuted_obligations=[dict(name=o["name"], detail=o.get("detail", "")) for o in refuted[:10]],
                         replay_cmd=f"{RUNPY} {HERE}/runtime/main.py --prop {prop} --backend {f['backend']} --replay {HERE}/{rp}")
    elif refuted:
        violation = dict(property=prop, kind="obligation refuted", obligation=refuted[0]["name"], detail=refuted[0].get("detail", ""),
                         all=[dict(name=o["name"], detail=o.get("detail", "")) for o in refuted])
    if violation:
        json.dump(violation, open(os.path.join(HERE, rp), "w"), indent=1)
    # ------------------------------------------------------------ evidence
    comp = dict(label="bounded (not counted as proved)", evaluations=ev, distinct_nontrivial=dist, skipped=sum(r["skipped"] for r in res),
                harness_errors=sum(r["harness_errors"] for r in res), not_run=bad,
                per_backend={b: sum(r["evaluations"] for r in res if r["backend"] == b) for b in sorted({r["backend"] for r in res})},
                rule="random set-ups of the property's quantifier (lattices, layers, incidences, histories) run on the real code; a case is "
                     "non-trivial when it satisfies the preconditions and all its assertions were evaluated; distinct by content hash")
    samples = [s for r in res for s in r["samples"][:1]][:3]
    cov = dict()
    if obls:
        level = "proof" if not other and not refuted else "other"
        cov.update(obligations=len(obls), discharged=len(proved),
                   checker_cmd=f"cd /verif && python3-vt -m nnv.run {prop}",
                   trusted_base=proof.get("trusted", []),
                   functions_under_contract=proof.get("functions", []),
                   backends={b: sum(1 for o in proved if o.get("by") == b) for b in sorted({o.get("by", "?") for o in proved})},
                   solver_seconds=round(sum(o.get("time", 0) for o in obls), 3),
                   undecided=[dict(name=o["name"], status=o["status"], detail=o.get("detail", "")[:400]) for o in other],
                   extraction=proof.get("extraction", ""),
                   vacuity=proof.get("vacuity", ""),
                   obligation_list=listing(proved))
        if level == "other":
            cov["explanation"] = ("obligations left undecided by the verifier on the current source; the bounded companion stood in for them: "
                                  + "; ".join(o["name"] for o in other[:20]))
    else:
        level = "exploration"
    cov.update(evaluations=ev, distinct_nontrivial=dist, rule=comp["rule"], samples=samples)
    cov["companion"] = comp
    if proof and proof.get("error"):
        cov["verifier_error"] = proof["error"][-2000:]
        cov.setdefault("explanation", "the verifier could not process the current source; the bounded companion stood in")
    ev_doc = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                  assumptions=(proof or {}).get("assumptions", []) + ["machine arithmetic of the code is treated as mathematical in the proofs; the companion runs in floating point with stated tolerances"],
                  wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    json.dump(ev_doc, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    # ------------------------------------------------------------ report
    print(f"{prop}: {len(proved)}/{len(obls)} obligations discharged ({len(refuted)} refuted, {len(other)} undecided); "
          f"companion {ev} evaluations, {len(fails)} failures; {time.time()-T0:.1f} s")
    for o in other[:12]:
        print(f"  undecided: {o['name']}: {o.get('detail','')[:160]}")
    for o in refuted[:12]:
        print(f"  REFUTED: {o['name']}: {o.get('detail','')[:300]}")
    if proof and proof.get("error"):
        print("  verifier error:", proof["error"][-600:])
    for b in bad:
        print("  companion did not finish:", b[-300:])
    for txt in known().get(prop, []):
        print(f"KNOWN-FINDING: property={prop} {txt}")
    if violation:
        print(f"  {violation['kind']}: {violation.get('obligation','')} {violation['detail'][:500]}")
        print(f"VIOLATION property={prop} replay={rp}" + ("" if fails else " no-failing-input-found"))
        return 1
    if not ev and not obls:
        print("nothing was checked:", bad)
        return 2
    return 0


sys.exit(main())
