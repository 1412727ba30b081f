#!/usr/bin/env python3
"""run.py PKG PROPS RUNS [sample]: applies every mutant of a package to scratch copies
of /repo and prints those that none of the given properties' simulations see.  """
import json, os, random, shutil, subprocess, sys, threading, queue, time
V = "/verif"
pkg, props, runs = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
sample = float(sys.argv[4]) if len(sys.argv) > 4 else 1
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", CGO_ENABLED="0")
T = "/tmp/mutate"
shutil.rmtree(T, ignore_errors=True)
os.makedirs(T)
subprocess.run("cd %s/tools/mutate && go build -o %s/mutate ." % (V, T), shell=True, check=True, env=env)
files = [f for f in sorted(os.listdir("/repo/" + pkg)) if f.endswith(".go") and not f.endswith("_test.go")]
out = subprocess.run([T + "/mutate"] + ["/repo/%s/%s" % (pkg, f) for f in files], capture_output=True, text=True, check=True).stdout
ms = [json.loads(l) for l in out.splitlines()]
random.seed(1)
if sample < 1:
    ms = random.sample(ms, int(len(ms) * sample))
seen = set(); u = []
for m in ms:
    k = (m["File"], m["Start"], m["End"], m["Text"])
    if k not in seen: seen.add(k); u.append(m)
ms = u
q = queue.Queue()
for i, m in enumerate(ms): q.put((i, m))
lock = threading.Lock()
stat = {"killed": 0, "nocompile": 0, "survived": 0, "error": 0}
def worker(w):
    R, B = "%s/r%d" % (T, w), "%s/b%d" % (T, w)
    subprocess.run("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (R, R), shell=True, check=True)
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: return
        dst = m["File"].replace("/repo", R)
        src = open(m["File"], "rb").read()
        new = src[:m["Start"]] + m["Text"].encode() + src[m["End"]:]
        open(dst, "wb").write(new)
        try:
            c = subprocess.run(["go", "vet", "-asmdecl", "./" + pkg], cwd=R, env=env, capture_output=True)
            c = subprocess.run(["go", "build", "./..."], cwd=R, env=env, capture_output=True)
            res = "survived"; why = ""
            if c.returncode: res = "nocompile"
            else:
                c = subprocess.run([V + "/build.sh"], env=dict(env, REPO=R, BUILD=B), capture_output=True, text=True)
                if c.returncode: res = "error"; why = c.stderr[-300:]
                else:
                    for p in props:
                        try:
                            c = subprocess.run([B + "/sim", "-worker", "-prop", p, "-stop", str(runs)], env=env, capture_output=True, text=True, timeout=300)
                        except subprocess.TimeoutExpired:
                            res, why = "error", "timeout " + p; break
                        if c.returncode: res, why = "killed", p + " process died"; break
                        f = [l for l in c.stdout.splitlines() if l.startswith('{"type":"fail"') or '"Type":"fail"' in l[:40] or '"fail"' in l[:40]]
                        if f:
                            r = json.loads(f[0]); x = r.get("Res") or r.get("res"); 
                            res, why = "killed", p + " " + (lambda f: f.get("Class") or f.get("class"))(x["Fails"][0]) + " run %d" % r.get("Index", r.get("index", 0)); break
        finally:
            open(dst, "wb").write(src)
        with lock:
            stat[res] += 1
            rel = m["File"][6:]
            l = "%-9s %s:%d %s [%s]" % (res, rel, m["Line"], m["What"], why)
            if res in ("survived", "error"): print(l, flush=True)
            log.write(l + "\n"); log.flush()
log = open("/tmp/mutate-%s.log" % pkg, "w")
t0 = time.time()
ts = [threading.Thread(target=worker, args=(w,)) for w in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
print(pkg, len(ms), stat, "%.0f s" % (time.time() - t0))
shutil.rmtree(T)
