#!/usr/bin/env python3
"""mutants.py [NAME|PREFIX*|PROP|break|keep ...]: a sweep over many small changes, in a scratch copy of /repo (SIM_REPO).
'break' changes violate the named property and a check of it should raise an alarm; 'keep' changes
preserve the behaviour and no check named (or listed in PROPS) may raise one. Unlike seeded/ these have no demonstrations."""
import os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SCRATCH = os.environ.get("SCRATCH", "/tmp/mutant-repo")
M = []


def brk(name, prop, *edits):
    M.append((name, "break", prop.split(), edits))


def keep(name, prop, *edits):
    M.append((name, "keep", prop.split(), edits))


exec(open(os.path.join(HERE, "mutants_list.py")).read())
exec(open(os.path.join(HERE, "mutants_more.py")).read())


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    want = sys.argv[1:]
    if not os.path.isdir(SCRATCH):
        run(["cp", "-a", "/repo", SCRATCH])
    head = run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    run(["git", "-C", SCRATCH, "fetch", "-q", "/repo", "HEAD"])
    run(["git", "-C", SCRATCH, "checkout", "-q", "-f", head])
    for name, kind, props, edits in M:
        if want and not (name in want or kind in want or set(props) & set(want) or any(w.endswith('*') and name.startswith(w[:-1]) for w in want)):
            continue
        run(["git", "-C", SCRATCH, "checkout", "-q", "-f", "."])
        bad = None
        for f, old, new in edits:
            p = os.path.join(SCRATCH, f)
            s = open(p).read()
            if s.count(old) < 1:
                bad = f"{f}: no such text: {old[:60]}"
                break
            open(p, "w").write(s.replace(old, new, 1))
        if bad:
            print(f"{name}: BAD {bad}", flush=True)
            continue
        props = os.environ.get("PROPS", "").split() or props
        res, good = [], kind == "keep"
        for prop in props:
            t = time.time()
            r = run(["python3", os.path.join(VERIF, "check.py"), prop], env=dict(os.environ, SIM_REPO=SCRATCH, SIM_BUDGET=os.environ.get("SIM_BUDGET", "25")), cwd=VERIF)
            hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
            tail = [l for l in r.stdout.splitlines() if l.strip()]
            v = [l for l in tail if "violat" in l.lower() or "VIOLATION" in l]
            res.append(f"{prop}:{'hit' if hit else 'rc%d' % r.returncode} {time.time() - t:.0f}s {(v or tail or [''])[0][:150] if hit or r.returncode else ''}")
            if kind == "break" and hit:
                good = True
            if kind == "keep" and r.returncode != 0:
                good = False
        print(("ok    " if good else "*****") + f" {kind} {name}: " + " | ".join(res), flush=True)
    run(["git", "-C", SCRATCH, "checkout", "-q", "-f", "."])


if __name__ == "__main__":
    main()
