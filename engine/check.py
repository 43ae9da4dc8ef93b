#!/usr/bin/env python3
"""One check: stages /repo's current sources, explores the property's scenarios symbolically and writes the evidence.
Exit 0: held on everything explored; 1: a reproduced counterexample (VIOLATION line); 2: no answer."""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import stage

def known(prop):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) label=\[(.*?)\] (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 600.0 if thorough else 300.0
    t0 = time.time()
    ok, info = stage.build()
    if not ok:
        print("could not encode the current sources:"); print(info); sys.exit(2)
    work = stage.WORK
    out = os.path.join(work, f"{prop}.json")
    if os.path.exists(out): os.remove(out)
    kn = known(prop)
    kf = os.path.join(work, f"{prop}.known")
    with open(kf, "w") as f: f.write("\n".join(k for k, _ in kn))
    cmd = [os.path.join(work, "target/debug/harness"), "run", prop, "--time", str(budget), "--out", out, "--known", kf] + (["--thorough"] if thorough else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget * 1.5 + 120)
        log = r.stdout
    except subprocess.TimeoutExpired as e:
        log = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else str(e.stdout); r = None
    print(log[-6000:])
    if r is None or r.returncode != 0 or not os.path.exists(out):
        print("the exploration did not finish"); sys.exit(2)
    rep = json.load(open(out))
    viol, knownhit, missing, notes, undecided = [], {}, [], [], {}
    S = dict(paths=0, aborted=0, branches=0, validated=0, queries=0, solver_ms=0, obligations=0, discharged=0, unexplored=0)
    scen, samples, funcs, labels = [], [], set(), {}
    kl = {k for k, _ in kn}
    for x in rep:
        a = x["report"]
        for y in [a] + x["pinned"]:
            for k in ("paths", "aborted", "branches", "validated", "queries", "solver_ms"): S[k] += y[k]
            funcs.update(y["funcs"])
        n = sum(a["checks"].values()); u = sum(a["undecided"].values())
        S["obligations"] += n; S["discharged"] += n - u - len(a["violations"]); S["unexplored"] += a["unexplored"]
        for k, v in a["checks"].items(): labels[k] = labels.get(k, 0) + v
        for k, v in a["undecided"].items(): undecided[k] = undecided.get(k, 0) + v
        samples += a["samples"][:2]
        complete = a["unexplored"] == 0
        seen = set()
        for v in a["violations"]:
            if v["label"] in kl: knownhit[v["label"]] = v
            elif v["label"] not in seen: seen.add(v["label"]); viol.append(v)
        if x["missing"] and not viol:
            if complete: missing.append((a["name"], x["missing"]))
            else: notes.append(f"{a['name']}: not reached within the time budget: {x['missing']}")
        if a["errors"]: notes.append(f"{a['name']}: {len(a['errors'])} paths could not be modelled: {sorted(set(a['errors']))[:3]}")
        if a["mismatches"]: notes.append(f"{a['name']}: {len(a['mismatches'])} models whose native run took another path: {[m['label'] for m in a['mismatches']][:3]}")
        if not complete: notes.append(f"{a['name']}: {a['unexplored']} branches left unexplored when the time budget ended")
        scen.append(dict(name=a["name"], paths=a["paths"], rejected_paths=a["aborted"], obligations=n, decided_by=a["by_level"], undecided=a["undecided"],
            pinned_profiles=[dict(paths=y["paths"], obligations=sum(y["checks"].values()), undecided=y["undecided"]) for y in x["pinned"]],
            unexplored=a["unexplored"], reached=a["covers"], rejected_with=a["abort_msgs"], queries=a["queries"], solver_ms=a["solver_ms"], wall_ms=a["ms"], variables=a["bounds"]))
    exhaustive = S["unexplored"] == 0 and not notes
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(states=S["paths"], transitions=S["branches"], traces_validated_against_impl=S["validated"], samples=[dict(scenario=s["scenario"], inputs=s["assign"], choices=s["choices"]) for s in samples[:6]],
            obligations=S["obligations"], discharged=S["discharged"], rejected_paths=S["aborted"], queries=S["queries"], solver_ms=S["solver_ms"], unexplored_branches=S["unexplored"], undecided=undecided,
            exhaustive=exhaustive, functions_encoded=sorted(funcs), properties_checked=labels, scenarios=scen, notes=notes,
            explanation="states are explored symbolic paths of the real code (each stands for all values of the listed variables that follow it), transitions the symbolic branches taken; every obligation is discharged for all values on its path by simplification, by the path condition, or by z3; traces_validated counts path models that were executed natively with the same outcome"),
        assumptions=["the model of the ledger in engine/scrypto stands for the Radix engine", "rational arithmetic with explicit truncation terms stands for 192-bit decimals within the stated ranges (no overflow there)", "compact 16-bit floats are idealised except where a property is about them (C23)"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for k, why in kn:
        if k in knownhit: print(f"KNOWN-FINDING: property={prop} {why}")
    for i, v in enumerate(viol):
        d = os.path.join(work, "replay"); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f"{prop}-{i}.tsv")
        with open(f, "w") as o:
            o.write(f"scenario\t{v['scenario']}\n")
            for k, x in v["assign"].items(): o.write(f"assign\t{k}\t{x}\n")
            for k, x in v["choices"]: o.write(f"choice\t{k}\t{x}\n")
            o.write(f"# {v['label']}\n# {v['detail']}\n# replay with: {work}/target/debug/harness replay {prop} {f}\n".replace("\t", " "))
        print(f"{v['label']}: {v['detail'][:600]}")
        print("  inputs:", {k: (int(x) / 1e18 if abs(int(x)) > 1e9 else int(x)) for k, x in v["assign"].items()})
        print("  choices:", dict(v["choices"]) )
        print(f"VIOLATION property={prop} replay={f}")
    for n in notes: print("note:", n)
    if undecided: print("undecided obligations:", undecided)
    if viol: sys.exit(1)
    if missing: print("vacuous: not reachable:", missing); sys.exit(2)
    print(f"{prop}: held on {S['paths']} paths, {S['discharged']}/{S['obligations']} obligations discharged, {S['queries']} solver queries, {time.time()-t0:.1f}s")

main()
