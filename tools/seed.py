#!/usr/bin/env python3
"""Planted bugs: `pack ID..` puts a copy of the engine beside a demonstration, `try ID..` runs the demonstration on the unchanged and on the
changed sources and the property's check on the changed ones (all in scratch directories)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
MAIN = '''#![allow(non_camel_case_types, dead_code)]
MODS
mod demo;
use scrypto::explore::{replay, Cex, Cfg};
fn main() {
    world::PROP.set("DEMO".into()).ok();
    let mut bad = false;
    for (name, assign, f) in demo::cases() {
        let cfg = Cfg { name: name.to_string(), threads: 1, time: std::time::Duration::from_secs(60), max_paths: 1, branch_ms: 0, check_ms: 0, profile: None, max_violations: 1, known: Default::default(), validate: 0 };
        let mut c = Cex::default();
        for (k, v) in assign { c.assign.insert(k.to_string(), match v.strip_prefix("i:") { Some(n) => n.parse().unwrap(), None => world::big(v) }); }
        let (fails, err, covers) = replay(&cfg, &*f, &c);
        println!("{}: reached {:?} error {:?}", name, covers, err);
        for f in &fails { println!("  FAILED {} {}", f.label, f.detail); }
        if !fails.is_empty() { bad = true; }
        else if err.is_some() || !covers.contains("demonstrated") { println!("  did not run to its end"); std::process::exit(3); }
    }
    std::process::exit(if bad { 1 } else { 0 });
}
'''
RUN = '''#!/usr/bin/env python3
# builds the contracts of the current directory against the ledger model beside this file and runs demo.rs, one concrete history
import os, shutil, subprocess, sys, tempfile
D = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory() as t:
    keep = os.environ.get("DEMO_WORK")  # reuses a build directory while trying changes out
    e = os.path.join(keep or t, "engine")
    if not keep: shutil.copytree(os.path.join(D, "engine"), e)
    else: subprocess.check_call(["rsync", "-rc", "--delete", os.path.join(D, "engine") + "/", e + "/"])
    shutil.copy(os.path.join(D, "demo.rs"), os.path.join(e, "harness/src/demo.rs"))
    w = os.path.join(keep or t, "work")
    r = subprocess.run([sys.executable, os.path.join(e, "stage.py")], env=dict(os.environ, SYM_WORK=w, SYM_REPO=os.getcwd(), SYM_FAST="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[-4000:]); sys.exit(2)
    sys.exit(subprocess.run([os.path.join(w, "target/debug/harness")]).returncode)
'''
def pack(i):
    d = os.path.join(S, i); e = os.path.join(d, "engine")
    if os.path.isdir(e): shutil.rmtree(e)
    E = os.path.join(V, "engine")
    for x in ("scrypto", "scrypto-derive", "overlay"): shutil.copytree(os.path.join(E, x), os.path.join(e, x), ignore=shutil.ignore_patterns("target", "__pycache__"))
    shutil.copy(os.path.join(E, "stage.py"), e)
    h = os.path.join(e, "harness/src"); os.makedirs(h)
    mods = sorted(x[:-3] for x in os.listdir(os.path.join(E, "harness/src")) if x not in ("main.rs", "props.rs"))
    for x in mods: shutil.copy(os.path.join(E, "harness/src", x + ".rs"), h)
    open(os.path.join(h, "main.rs"), "w").write(MAIN.replace("MODS", "\n".join(f"mod {m};" for m in mods)))
    open(os.path.join(d, "run.py"), "w").write(RUN)
    f = os.path.join(d, "demo.sh")
    open(f, "w").write('#!/bin/bash\n# exit 0: the guarantee holds in the demonstrated history; 1: it is broken\nexec python3 "$(dirname "$0")/run.py"\n'); os.chmod(f, 0o755)
def repo(i):
    r = f"/tmp/seed/{i}"
    if os.path.isdir(r): shutil.rmtree(r)
    subprocess.check_call(["rsync", "-a", "--exclude", "target", "--exclude", ".git", "/repo/", r + "/"])
    return r
def sh(cmd, **k):
    e = dict(os.environ); e.update(k.pop("env", {}))
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, **k)
def attempt(i):
    d = os.path.join(S, i); p = json.load(open(os.path.join(d, "meta.json")))["property"]
    os.makedirs("/tmp/seed", exist_ok=True)
    for n in ("clean", "bug", "chk"): os.makedirs(f"/tmp/seed/_{n}", exist_ok=True)
    if "--nodemo" not in sys.argv:
        a = sh([os.path.join(d, "demo.sh")], cwd="/repo", env={"DEMO_WORK": "/tmp/seed/_clean"})
    r = repo(i)
    q = sh(["git", "apply", "--verbose", os.path.join(d, "patch.diff")], cwd=r)
    if q.returncode: print(i, "patch does not apply", q.stdout); return
    if "--nodemo" not in sys.argv:
        b = sh([os.path.join(d, "demo.sh")], cwd=r, env={"DEMO_WORK": "/tmp/seed/_bug"})
        print(f"{i}: demo unchanged {a.returncode}, changed {b.returncode}", flush=True)
        if a.returncode: print(a.stdout[-3000:])
        if b.returncode != 1 or "-v" in sys.argv: print(b.stdout[-3000:])
    if "--nocheck" not in sys.argv:
        c = sh([sys.executable, os.path.join(V, "engine/check.py"), p], env={"SYM_REPO": r, "SYM_WORK": "/tmp/seed/_chk"}, cwd=V)
        l = [x for x in c.stdout.splitlines() if "VIOLATION" in x or x.startswith(p + ":")]
        print(f"{i}: check {p} exit {c.returncode} {l[:2]}", flush=True)
        if c.returncode != 1: print(c.stdout[-1500:])
    shutil.rmtree(r)
ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(S))
for i in ids:
    if sys.argv[1] in ("pack", "try"): pack(i)
    if sys.argv[1] == "try": attempt(i)
