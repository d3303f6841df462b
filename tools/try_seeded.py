#!/usr/bin/env python3
"""Confirm planted changes and see which checks notice them, on scratch copies under /tmp/tryseed.

tools/try_seeded.py [--no-demo] [--no-check] [--all-checks] [--scale PERCENT] DIR..."""
import argparse, json, os, shutil, subprocess, sys
ap = argparse.ArgumentParser()
ap.add_argument("--no-demo", action="store_true"); ap.add_argument("--no-check", action="store_true"); ap.add_argument("--all-checks", action="store_true")
ap.add_argument("--scale", type=int, default=100); ap.add_argument("--checks", default=""); ap.add_argument("--work", default="/tmp/tryseed")
ap.add_argument("dirs", nargs="+")
a = ap.parse_args()
W = a.work
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", VP_SCALE=str(a.scale), VERIF_SEED="1")
env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/verif")
subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
for x in ("harness", "check.sh"): subprocess.check_call(["cp", "-a", "/verif/" + x, W + "/verif/"])
for x in ("harness/Cargo.toml", "check.sh"):
    p = f"{W}/verif/{x}"; s = open(p).read().replace("/repo", W + "/repo").replace("target" + W + "/repo", "target/repo"); open(p, "w").write(s)
R = W + "/repo"
sh = lambda c, cwd=R: subprocess.run(c, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for d in a.dirs:
    d = os.path.abspath(d)
    name = os.path.basename(d)
    prop = json.load(open(d + "/meta.json"))["property"]
    msgs = []
    sh(["git", "checkout", "-q", "--", "."])
    demo = lambda: sh(["timeout", "300", "bash", d + "/demo.sh"])
    if not a.no_demo:
        r = demo()
        if r.returncode: msgs.append("DEMO FAILS ON CLEAN: " + r.stdout[-500:])
    r = sh(["git", "apply", d + "/patch.diff"])
    if r.returncode: print(name, prop, "PATCH DOES NOT APPLY", r.stdout); continue
    if not a.no_demo:
        r = sh(["cargo", "build", "--workspace", "--offline"])
        if r.returncode: print(name, prop, "NO BUILD", r.stdout[-1500:]); continue
        r = sh(["cargo", "test", "--workspace", "--offline", "-q"])
        if r.returncode: msgs.append("TESTS FAIL " + r.stdout[-800:])
        r = demo()
        if not r.returncode: msgs.append("DEMO PASSES WITH THE CHANGE")
        else: msgs.append("demo: " + r.stdout.strip().split("\n")[-1][:160])
    if not a.no_check:
        for c in (a.checks.split(",") if a.checks else ids if a.all_checks else [prop]):
            r = sh(["bash", "check.sh", c], W + "/verif")
            v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
            msgs.append(f"{c}: " + ("caught" if r.returncode == 1 and v else f"exit {r.returncode}" + (" " + r.stdout[-300:] if r.returncode else "")))
            if r.returncode == 1: msgs.append("   " + r.stdout.strip()[:300].replace("\n", " | "))
    print(name, prop, *("\n   " + m for m in msgs), flush=True)
shutil.rmtree(W, ignore_errors=True)
