#!/usr/bin/env python3
"""Tries the checks against small generated changes of /repo (tools/mutate), in copies under /tmp.
usage: mutants.py MUTANTS.jsonl OUT.jsonl [-j N] [--share K/M]"""
import json, os, sys, subprocess, shutil, threading, queue, time, tempfile
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", VERIF_FIRST="1", VERIF_WORKERS="2")
GEN = "C02 C03 C04 C21 C07 C12 C22 C05 C06 C08 C14 C10 C13 C19 C09 C11 C01 C17 C20 C15 C18 C25 C26 C27 C28 C29 C23 C24 C30".split()
ORDER = {"pkg/persistence/main.go": ["C15", "C16", "C17", "C18"], "cmd/cli/main.go": ["C24"], "cmd/wasm/main.go": ["C23"], "web/src/TopolithTerminal.tsx": ["C30"], "web/src/wasm.ts": ["C30"], "web/src/App.tsx": ["C30"],
  "pkg/errors/main.go": ["C20", "C12", "C23", "C21", "C18"], "pkg/grammar/main.go": ["C13", "C12", "C01", "C14", "C17", "C20"] + [x for x in GEN if x not in "C13 C12 C01 C14 C17 C20"],
  "pkg/world/tree.go": ["C02", "C25", "C14", "C19", "C06", "C01", "C17", "C18"] + [x for x in GEN if x not in "C02 C25 C14 C19 C06 C01 C17 C18"],
  "pkg/world/item.go": ["C14", "C19"] + [x for x in GEN if x not in "C14 C19"], "pkg/world/rel.go": ["C14", "C19"] + [x for x in GEN if x not in "C14 C19"]}
FRAC = float(os.environ.get("FRAC", "0.4"))
import re
Q = {}
for f in os.listdir("/verif/harness"):
    if f.startswith("props_"):
        for m in re.finditer(r'ID: "(C\d\d)", Quick: (\d+)', open("/verif/harness/" + f).read()): Q[m[1]] = int(m[2])

def run(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return -9, "timeout"

def one(d, m):
    repo, h = d + "/repo", d + "/harness"
    path = os.path.join(repo, m["file"])
    src = open("/repo/" + m["file"], "rb").read()
    open(path, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
    try:
        rc, out = run(["go", "build", "./pkg/...", "./cmd/cli"], repo, 120)
        if rc: return {"r": "no-build"}
        rc, out = run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./..."], repo, 120)
        if rc: return {"r": "tests-fail"}
        rc, out = run(["go", "build", "-tags", "verif", "-o", d + "/mon", "."], h, 200)
        if rc: return {"r": "no-harness", "out": out[-300:]}
        env = dict(ENV)
        tried = []
        for c in ORDER.get(m["file"], GEN):
            if c == "C23":
                rc, out = run(["go", "build", "-o", d + "/t.wasm", "./cmd/wasm"], repo, 200, dict(ENV, GOOS="js", GOARCH="wasm"))
                if rc: return {"r": "no-wasm"}
                env.update(VERIF_WASM=d + "/t.wasm", VERIF_WASM_EXEC=WASM_EXEC)
            if c == "C30":
                rc, out = run(["node", "/verif/harness/web/bundle.js", repo + "/web/src/main.tsx", d + "/page.js"], d, 100)
                if rc: return {"r": "no-page"}
                if "VERIF_WASM" not in env:
                    rc, out = run(["go", "build", "-o", d + "/t.wasm", "./cmd/wasm"], repo, 200, dict(ENV, GOOS="js", GOARCH="wasm"))
                    if rc: return {"r": "no-wasm"}
                env.update(VERIF_WEB=d + "/page.js", VERIF_WASM=d + "/t.wasm", VERIF_WASM_EXEC=WASM_EXEC)
            if c == "C24":
                run(["go", "build", "-o", d + "/cli", "./cmd/cli"], repo, 200)
                env["VERIF_CLI"] = d + "/cli"
            n = max(20, int(Q[c] * FRAC)) if c != "C16" else 5
            if c in ("C23", "C24", "C30") and m["file"].startswith("pkg"): n = 90
            env2 = dict(env, VERIF_WORKERS="8") if c == "C24" else env
            rc, out = run([d + "/mon", "-prop", c, "-count", str(n), "-verif", d + "/v"], d, 900, env2)
            if rc == 1:
                i = out.find("VIOLATION")
                return {"r": "killed", "by": c, "why": out[i:i+300]}
            if rc == -9: return {"r": "killed", "by": c, "why": "timeout"}
            if rc not in (0, 2): return {"r": "odd", "by": c, "why": out[-300:]}
            tried.append(c)
        return {"r": "SURVIVED", "tried": len(tried)}
    finally:
        open(path, "wb").write(src)

def worker(q, out, lock, d):
    shutil.copytree("/repo", d + "/repo"); shutil.copytree("/verif/harness", d + "/harness")
    g = open(d + "/harness/go.mod").read().replace("=> /repo", "=> " + d + "/repo"); open(d + "/harness/go.mod", "w").write(g)
    os.chmod(d, 0o755)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        t = time.time()
        try: r = one(d, m)
        except Exception as e: r = {"r": "driver-error", "why": repr(e)}
        m2 = dict(m, t=round(time.time() - t), **r)
        with lock:
            out.write(json.dumps(m2) + "\n"); out.flush()

if __name__ == "__main__":
    ms = [json.loads(l) for l in open(sys.argv[1])]
    done = set()
    if os.path.exists(sys.argv[2]):
        for l in open(sys.argv[2]):
            x = json.loads(l); done.add((x["file"], x["start"], x["end"], x["new"]))
    ms = [m for m in ms if (m["file"], m["start"], m["end"], m["new"]) not in done]
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    WASM_EXEC = subprocess.check_output(["go", "env", "GOROOT"], text=True, env=ENV).strip() + "/lib/wasm"
    q, lock = queue.Queue(), threading.Lock()
    for m in ms: q.put(m)
    root = tempfile.mkdtemp(prefix="mutants-", dir="/tmp"); os.chmod(root, 0o755)
    out = open(sys.argv[2], "a")
    ts = [threading.Thread(target=worker, args=(q, out, lock, f"{root}/{i}")) for i in range(j)]
    for i, t in enumerate(ts): os.mkdir(f"{root}/{i}"); t.start()
    for t in ts: t.join()
    shutil.rmtree(root)
