#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the code that pass the tests does some check notice?

tools/mutate.py OUT.jsonl [-j WORKERS] [-f FILE-REGEX] [--seed N] [--max N]
Works on copies of /repo and /verif under /tmp/mut, which it removes. Not a check."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue, time
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("-j", type=int, default=4); ap.add_argument("-f", default=".")
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--max", type=int, default=10**9)
ap.add_argument("--scale", type=int, default=8)
ap.add_argument("--list", action="store_true")
ap.add_argument("--skip", nargs="*", default=[], help="results of earlier campaigns: what they caught is left out")
a = ap.parse_args()
ROOT = "/tmp/mut"
CORE = ["C%02d" % i for i in range(1, 10)]
SERVER = ["C%02d" % i for i in (10, 11, 14, 15, 17, 18, 19, 20, 21, 13, 16, 22, 23, 12, 30, 31, 32)]
files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files"], text=True).split() if f.endswith(".rs") and re.search(a.f, f)]

def mutants(path, text):
    lines = text.split("\n")
    end = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    for i, l in enumerate(lines[:end]):
        s = l.strip()
        if s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod")) or not s: continue
        def rep(new, what):
            if new != l: out.append((i, new, what))
        out = []
        code = l.split(" // ")[0]
        if re.search(r"^(pub )?(const )?(type|struct|enum|impl|where|fn|async fn)\b|^\w+(<.*>)?: .*(Crypto|Async|Invert|Project)|Array", s): continue
        for m in re.finditer(r"(?<![\w.#])(0x[0-9a-fA-F]+|\d+)(?![\w.]*['\"])", code):
            if re.match(r"; ", code[m.end():]) and code[:m.start()].endswith("["): continue
            v = int(m.group(1), 0) if m.group(1)[:2] == "0x" else int(m.group(1))
            for n in {v + 1, v - 1, 0} - {v}:
                if n >= 0: rep(l[:m.start()] + str(n) + l[m.end():], "const")
        for pat, news in [(r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " >= "]), (r" > ", [" >= ", " <= "]),
                          (r" <= ", [" < "]), (r" >= ", [" > "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" % ", [" / "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
                          (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
                          (r"\bSome\(([^()]*)\)", ["None"]), (r"Ok\(\(\)\)", ["Err(())"]), (r"Err\(\(\)\)", ["Ok(())"]), (r"\.\.=", [".."]),
                          (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"is_empty\(\)", ["is_empty().eq(&false)"]),
                          (r"wrapping_add\(1\)", ["wrapping_add(0)"]), (r"\bsaturating_add\b", ["wrapping_add"]), (r"to_be_bytes", ["to_le_bytes"]), (r"from_be_bytes", ["from_le_bytes"]),
                          (r"b\"([^\"]+)\"", None), (r"if !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"while !", ["while "]),
                          (r"write_all\(", ["write("]), (r"read_exact\(", ["read("]), (r"\.await\?", [".await.ok()"])]:
            for m in re.finditer(pat, code):
                if news is None:
                    t = m.group(1)
                    if len(t) > 1 and "\\" not in t: rep(l[:m.start()] + 'b"' + t[:-1] + '"' + l[m.end():], "string")
                    continue
                for n in news: rep(l[:m.start()] + n + l[m.end():], pat.strip() + "->" + n.strip())
        if s.endswith(";") and not s.startswith(("let ", "}", "return", "break", "type ", "const ", "pub const", "continue", ")", ".", "static")):
            rep(re.match(r"\s*", l).group() + "();", "delete")
        if s.endswith(";") and s.startswith(("return", "break", "continue")): rep(re.match(r"\s*", l).group() + "();", "delete")
        for o in out: yield o

todo = []
for f in files:
    text = open("/repo/" + f).read()
    for i, new, what in mutants(f, text):
        todo.append((f, i, new, what))
random.Random(a.seed).shuffle(todo)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l); done.add((d["file"], d["line"] - 1, d["new"]))
known = set()
for f in a.skip:
    for l in open(f):
        d = json.loads(l)
        if d["result"][:4] not in ("SURV", "ERRO"): known.add((d["file"], d["old"], d["new"]))
lines = {f: open("/repo/" + f).read().split("\n") for f in files}
todo = [t for t in todo if (t[0], lines[t[0]][t[1]], t[2]) not in known]
todo = [t for t in todo if (t[0], t[1], t[2]) not in done][:a.max]
print(len(todo), "mutants", flush=True)
if a.list: sys.exit()
env0 = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", VP_SCALE=str(a.scale))
env0["PATH"] = "/root/.cargo/bin:" + env0["PATH"]
q = queue.Queue()
for t in todo: q.put(t)
lock, port = threading.Lock(), threading.Lock()

def run(cmd, cwd, env, limit):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=limit)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, ""

def worker(n):
    w = f"{ROOT}/w{n}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    os.makedirs(w + "/verif")
    for x in ("harness", "check.sh"): subprocess.check_call(["cp", "-a", "/verif/" + x, w + "/verif/"])
    for x in ("harness/Cargo.toml", "check.sh"):
        p = f"{w}/verif/{x}"; s = open(p).read().replace("/repo", w + "/repo").replace('target' + w + '/repo"', 'target/repo"').replace("target" + w + "/repo", "target/repo"); open(p, "w").write(s)
    env = dict(env0)
    run(["cargo", "test", "--workspace", "--offline", "--no-run"], w + "/repo", env, 900)
    while True:
        try: f, i, new, what = q.get_nowait()
        except queue.Empty: break
        p = f"{w}/repo/{f}"
        orig = open("/repo/" + f).read()
        lines = orig.split("\n"); old = lines[i]
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        res, by = None, None
        t0 = time.time()
        rc, o = run(["cargo", "build", "--workspace", "--offline"], w + "/repo", env, 300)
        if rc: res = "no build"
        else:
            rc, o = run(["cargo", "test", "--workspace", "--offline", "-q"], w + "/repo", env, 120)
            if rc: res = "tests"
        if not res:
            if f.startswith("nora_scp"): ids = ["C24", "C25", "C26", "C27"]
            elif f.startswith("nora_sshd"): ids = ["C28", "C29"]
            elif f.startswith("nora_ssh_core"): ids = CORE + SERVER
            else: ids = SERVER
            res = "SURVIVED"
            for c in ids:
                if c in ("C28", "C29"):
                    with port: rc, o = run(["bash", "check.sh", c], w + "/verif", env, 900)
                else: rc, o = run(["bash", "check.sh", c], w + "/verif", env, 600)
                if rc == 1 and "VIOLATION property=" in o: res, by = "caught", c; break
                if rc != 0: res, by = f"ERROR {rc}", c + " " + o[-300:]; break
        open(p, "w").write(orig)
        with lock, open(a.out, "a") as fo:
            fo.write(json.dumps({"file": f, "line": i + 1, "what": what, "old": old, "new": new, "result": res, "by": by, "s": round(time.time() - t0)}) + "\n")
    shutil.rmtree(w, ignore_errors=True)

ts = [threading.Thread(target=worker, args=(n,)) for n in range(a.j)]
for t in ts: t.start()
for t in ts: t.join()
