#!/usr/bin/env python3
"""Mutation campaign: mutate.py OUT.jsonl SLOTS FILE... (files relative to /repo/go).

Every mutant is made in a copy of /repo under /tmp, compiled, and given to the checks of its file until one of
them reports a violation. Used to find what the checks miss; no check uses it."""
import json, os, subprocess, sys, shutil, threading, queue, time
here = os.path.dirname(os.path.abspath(__file__))
MAP = [
 ("handler/handler.go", "C09 C10 C12 C11 C32 C33 C30 C29 C31"), ("handler/caller.go", "C05 C09 C10 C11 C12 C30 C33"),
 ("proxy/mono", "C09 C32 C33 C31 C29"), ("proxy/flux", "C10 C11 C32 C33 C29 C31"), ("proxy/responder", "C10 C11 C32 C33 C29 C31"),
 ("proxy/lookup", "C06 C33"), ("proxy/stream", "C30"),
 ("transport/wasmrs/host/instance.go", "C23 C31 C30 C33 C32 C22"), ("transport/wasmrs/host", "C23 C31 C30 C22 C33"),
 ("transport/wasmrs/guest", "C31 C30 C33 C32"),
 ("transport/wasmrs/example", "C34"), ("transport/wasmrs/mesh/modules", "C34"), ("example", "C34"), ("transport/wasmrs/cmd", "C35"), ("transport/wasmrs/mesh/mesh.go", "C22 C30"),
 ("transport/rsocket/decoder.go", "C04 C02"), ("transport/rsocket/misc.go", "C04 C02"),
 ("transport/rsocket/tcp_conn.go", "C04 C02 C08 C29 C28"), ("transport/rsocket", "C28 C29 C08 C33"),
 ("rx/flux", "C14 C10 C11 C15"), ("rx/mono", "C13 C15 C09"), ("rx/flow", "C15"), ("rx/", "C15 C13 C14"),
 ("invoke/handlers.go", "C21"), ("invoke/instances.go", "C24"), ("invoke/portio.go", "C20"),
 ("internal/buffer", "C07"), ("internal/socket", "C05"), ("internal/frames", "C01 C02 C03"), ("internal/u24", "C01 C04 C02"),
 ("operations", "C19 C21"), ("transport/wasmrs/customsections", "C27"), ("transform", "C26 C24"),
 ("msgpack/convert", "C26"), ("msgpack", "C16 C17 C18 C26"), ("types/uuid", "C25"), ("payload", "C09 C20"), ("internal/common", "C25"),
]
out, slots, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
budget = os.environ.get("VERIF_BUDGET", "30")
tool = "/tmp/mutate-bin"
subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(here, "mutate"), check=True, env=dict(os.environ, GOWORK="off"))
q = queue.Queue()
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["File"], d["Off"], d["End"], d["New"]))
for f in files:
    r = subprocess.run([tool, f], cwd="/repo/go", capture_output=True, text=True, check=True)
    for n, l in enumerate(r.stdout.splitlines()):
        m = json.loads(l)
        if n % int(os.environ.get("STRIDE", 1)): continue
        if (m["File"], m["Off"], m["End"], m["New"]) not in done:
            q.put(m)
print(q.qsize(), "mutants")
lock = threading.Lock()
log = open(out, "a")
script = open(os.path.join(os.path.dirname(here), "check.sh")).read()

def work(slot):
    root = "/tmp/mutants/%d" % slot
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    subprocess.run(["cp", "-a", "/repo", root + "/repo"], check=True)
    vdir = root + "/verif"; os.makedirs(vdir + "/evidence")
    for d in ("harness", "tools"):
        os.symlink("/verif/" + d, vdir + "/" + d)
    open(vdir + "/check.sh", "w").write(script.replace("/repo/go", root + "/repo/go"))
    os.chmod(vdir + "/check.sh", 0o755)
    cpu = os.environ.get("CPUS", "0-7") if slots == 1 else str(slot)
    env = dict(os.environ, VERIF_BUDGET=budget, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        path = root + "/repo/go/" + m["File"]
        src = open(path, "rb").read()
        open(path, "wb").write(src[:m["Off"]] + m["New"].encode() + src[m["End"]:])
        t = time.time(); by = None; times = []
        try:
            b = subprocess.run(["taskset", "-c", cpu, "go", "build", "./" + os.path.dirname(m["File"])], cwd=root + "/repo/go", env=env, capture_output=True, text=True)
            if b.returncode: by = "compiler"
            else:
                checks = next(c for p, c in MAP if m["File"].startswith(p)).split()
                for c in checks:
                    try:
                        r = subprocess.run(["taskset", "-c", cpu, "./check.sh", c], cwd=vdir, env=env, capture_output=True, text=True, timeout=400)
                        o, rc = r.stdout + r.stderr, r.returncode
                    except subprocess.TimeoutExpired: o, rc = "", -9
                    if rc == 1 and "VIOLATION property=" + c in o: by = c; break
                    if rc not in (0, 1): by = "?%s rc=%d %s" % (c, rc, o[-200:]); break
        finally:
            open(path, "wb").write(src)
        m["By"], m["T"] = by, round(time.time() - t, 1)
        with lock:
            log.write(json.dumps(m) + "\n"); log.flush()

ts = [threading.Thread(target=work, args=(i,)) for i in range(slots)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree("/tmp/mutants", ignore_errors=True)
