"""Planted bugs: create, verify and run checks against them, in scratch copies bound over /repo in a private mount namespace.
  bug.py new ID PROP FILE OLD NEW [N]   (writes patch.diff; N: replace only the N-th occurrence, 0-based)
  bug.py verify ID...     build + stable tests + demo with and without the patch
  bug.py check ID [CXX..] quick check(s) against the patched tree
  bug.py patchcheck FILE.diff CXX...   the same for an arbitrary patch (refactorings)"""
import sys, os, json, shutil, subprocess, concurrent.futures as cf
V = "/verif"; W = "/tmp/bugw"
def ns(root, cmd, **k):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (root, cmd)], capture_output=True, text=True, **k)
def copy(name, patch=None):
    d = os.path.join(W, name); shutil.rmtree(d, True); os.makedirs(W, exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    if patch:
        r = subprocess.run(["git", "apply", patch], cwd=d, capture_output=True, text=True)
        if r.returncode: raise SystemExit("apply %s: %s" % (patch, r.stderr))
    return d
def verify(i):
    p = os.path.join(V, "seeded", i)
    d = copy("v-" + i, os.path.join(p, "patch.diff"))
    try:
        out = os.path.join(W, i + ".json")
        r = ns(d, "bash /opt/vp/test.sh %s" % out)
        res = json.load(open(out)); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = sorted(st - set(res["passed"]))
        r2 = ns(d, "timeout 290 bash %s/demo.sh" % p)
        c = copy("c-" + i); r3 = ns(c, "timeout 290 bash %s/demo.sh" % p); shutil.rmtree(c, True)
        ok = not bad and res["passed"] and r2.returncode != 0 and r3.returncode == 0
        return "%s %s stable-failing=%s demo(bug)=%d demo(clean)=%d\n%s" % (i, "OK" if ok else "BAD", bad[:5] if res["passed"] else r.stderr[-800:], r2.returncode, r3.returncode, "" if ok else (r2.stdout + r2.stderr + r3.stdout + r3.stderr)[-1500:])
    finally: shutil.rmtree(d, True)
def check(i, props, patch=None):
    p = os.path.join(V, "seeded", i)
    patch = patch or os.path.join(p, "patch.diff")
    props = props or [json.load(open(os.path.join(p, "meta.json")))["property"]]
    d = copy("k-" + i, patch)
    vd = os.path.join(W, "verif-" + i); shutil.rmtree(vd, True)
    shutil.copytree(V, vd, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__"))
    out = []
    try:
        for c in props:
            r = ns(d, "mount --bind %s /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt -m pmv.run %s" % (vd, c))
            out.append("%s %s rc=%d %s" % (i, c, r.returncode, "\n   ".join((r.stdout + r.stderr).strip().splitlines()[-4:])[-1200:]))
            try:
                ev = json.load(open(os.path.join(vd, "evidence", c + ".json")))
                with open("/tmp/bugw/%s-%s.ev.json" % (i, c), "w") as f: json.dump(ev, f)
            except Exception: pass
    finally:
        shutil.rmtree(d, True); shutil.rmtree(vd, True)
    return "\n".join(out)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new":
        i, prop, f, old, new = a[1:6]
        d = copy("n-" + i)
        fn = os.path.join(d, f); s = open(fn).read()
        old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
        n = s.count(old)
        if n == 0: raise SystemExit("%s: not found" % i)
        if len(a) > 6:
            k = int(a[6]); parts = s.split(old)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        elif n > 1: raise SystemExit("%s: %d occurrences" % (i, n))
        else: s = s.replace(old, new)
        open(fn, "w").write(s)
        os.makedirs(os.path.join(V, "seeded", i), exist_ok=True)
        r = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True)
        old_p = os.path.join(V, "seeded", i, "patch.diff")
        open(old_p, "w").write(r.stdout)
        shutil.rmtree(d, True)
    elif a[0] == "verify":
        with cf.ThreadPoolExecutor(4) as ex:
            for s in ex.map(verify, a[1:] or sorted(os.listdir(V + "/seeded"))): print(s, flush=True)
    elif a[0] == "check":
        if len(a) > 2 and a[2].startswith("C"): print(check(a[1], a[2:]))
        else:
            with cf.ThreadPoolExecutor(4) as ex:
                for s in ex.map(lambda i: check(i, None), a[1:] or sorted(os.listdir(V + "/seeded"))): print(s, flush=True)
    elif a[0] == "patchcheck":
        print(check(os.path.basename(a[1]).split(".")[0], a[2:], os.path.abspath(a[1])))
