#!/usr/bin/env python3
"""plant.py [ID...]: (re)creates seeded/<ID> from bugs.py and confirms in a scratch copy of /repo that the change
builds, passes the stable tests, and that the demonstration tells it from the unchanged tree.
plant.py --check [ID...]: applies each to /repo, runs the property's check, undoes it."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = "/tmp/plant-repo"
sys.path.insert(0, HERE)
from bugs import BUGS

INC = {"arduino": "-I\"$D/stub\" -I. -Iarduino", "esp": "-I\"$D/stub\" -I. -Iesp32-esp-idf", "core": "-I."}


def run(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def git(*a):
    r = run(["git", "-C", SCRATCH, *a])
    assert r.returncode == 0, r.stdout
    return r.stdout


def scratch():
    if not os.path.isdir(SCRATCH):
        run(["cp", "-a", "/repo", SCRATCH])
    git("checkout", "-q", "-f", run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()) if run(["git", "-C", SCRATCH, "cat-file", "-e", run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()]).returncode == 0 else (git("fetch", "-q", "/repo", "HEAD"), git("checkout", "-q", "-f", "FETCH_HEAD"))
    for f in ("PersistentStorage.h",):
        assert open(f"{SCRATCH}/{f}").read() == open(f"/repo/{f}").read()


def edit(b):
    for f, old, new in b["edits"]:
        p = os.path.join(SCRATCH, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))


def original(b, diff):
    """Does the patch take away at least one line of the original repository?"""
    for f, _, _ in b["edits"]:
        blame = run(["git", "-C", SCRATCH, "blame", "-s", "-l", "HEAD", "--", f]).stdout.splitlines()
        orig = {re.sub(r"^\S+\s+(\S+\s+)?\d+\) ?", "", l).strip() for l in blame if l.startswith("^")}
        gone = {l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")}
        if any(g and g in orig for g in gone):
            return True
    return False


def tests(where):
    """builds and runs the stable tests of a tree (out of /opt/vp, which is for /repo)"""
    bld = where + "/_plant_build"
    r = run(f"cmake -S . -B {bld} -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON -DCMAKE_REQUIRE_FIND_PACKAGE_Freetype=ON -DCMAKE_REQUIRE_FIND_PACKAGE_Iconv=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/dev/null && ninja -C {bld} -j8 | tail -20", cwd=where, shell=True)
    if r.returncode or "FAILED" in r.stdout:
        return "build failed: " + r.stdout[-1500:]
    r = run(["ctest", "--test-dir", bld], cwd=where)
    return None if r.returncode == 0 and "100% tests passed" in r.stdout else r.stdout[-600:]


def write(b):
    d = os.path.join(SEEDED, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    k = b["kind"]
    if k in ("arduino", "esp"):
        shutil.copytree(os.path.join(HERE, "stubs", k), d + "/stub")
    if k == "font":
        for f, text in b["files"].items():
            open(os.path.join(d, f), "w").write(text)
        open(d + "/demo.sh", "w").write(b["demo"])
    else:
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        std = "c++20" if k == "esp" else "c++17"
        open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# Exits 0 if the library behaves as the property says. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std={std} -w -g {b.get('flags', '')} {INC[k]} "$D/demo.cpp" {' '.join(b.get('src', []))} -o "$W/demo" || exit 4
cd "$W" && timeout 60 ./demo
""")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    return d


def make(b):
    git("checkout", "-q", "-f", ".")
    d = write(b)
    if b["kind"] == "font":
        t = tests(SCRATCH)
        assert not t, t
    r = run(["bash", d + "/demo.sh"], cwd=SCRATCH)
    if r.returncode:
        return f"demo fails on the unchanged tree ({r.returncode}): {r.stdout[-800:]}"
    edit(b)
    diff = git("diff")
    open(d + "/patch.diff", "w").write(diff)
    if not original(b, diff):
        return "patch changes no original line"
    t = tests(SCRATCH)
    if t:
        return t
    r = run(["bash", d + "/demo.sh"], cwd=SCRATCH)
    git("checkout", "-q", "-f", ".")
    if r.returncode == 0:
        return "demo passes with the patch"
    return f"ok (demo with patch: {r.returncode} {r.stdout.strip()[-100:]})"


def check(b):
    d = os.path.join(SEEDED, b["id"])
    assert not run(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout
    r = run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    assert r.returncode == 0, r.stdout
    try:
        r = run(["python3", "check.py", b["prop"]], cwd=VERIF)
    finally:
        run(["git", "-C", "/repo", "checkout", "--", "."])
    tail = r.stdout.strip().splitlines()[-2:]
    hit = r.returncode == 1 and f"VIOLATION property={b['prop']}" in r.stdout
    return ("CAUGHT " if hit else f"MISSED rc={r.returncode} ") + " | ".join(tail)[:300]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [b for b in BUGS if not args or b["id"] in args or b["prop"] in args]
    if "--check" not in sys.argv:
        scratch()
    for b in todo:
        print(b["id"], check(b) if "--check" in sys.argv else make(b), flush=True)


if __name__ == "__main__":
    main()
