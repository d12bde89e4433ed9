"""plant(...): write one seeded bug under /verif/seeded and confirm its demonstration both ways in a scratch copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def plant(id, prop, edits, main, srcs, needs, breaks, flags="", repeat=1):
    """edits: [(file, old, new)]"""
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(V + "/tools/demo/stub", d + "/stub")
    for f in ("common.sh", "full.h"):
        if f != "full.h" or "full.h" in main:
            shutil.copy(V + "/tools/demo/" + f, d)
    open(d + "/m.cpp", "w").write(main)
    open(d + "/demo.sh", "w").write('#!/bin/sh\n. "$(dirname "$0")/common.sh"\n' + ('DEMO_FLAGS="%s"\n' % flags if flags else "")
        + "build m.cpp %s\ncd \"$work\" && timeout 120 ./demo\n" % srcs)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    w = "/tmp/plant.%d" % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % w, shell=True)
        subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % w, shell=True)
        run = lambda: subprocess.run(["sh", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        a = run()
        for f, old, new in edits:
            p = w + "/sources/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git diff", shell=True, cwd=w, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = run()
        ok = a.returncode == 0 and b.returncode not in (0, 97, 98, 99)
        print(id, "OK" if ok else "BAD", a.returncode, b.returncode, b.stdout[-200:].replace("\n", " | ") if ok else (a.stdout + a.stderr)[-800:] + "\n----\n" + (b.stdout + b.stderr)[-800:])
        if not ok:
            os.rename(d, "/tmp/bad." + id + ".%d" % os.getpid())
    finally:
        shutil.rmtree(w, ignore_errors=True)
