#!/usr/bin/env python3
"""automut.py FILE... : every small mechanical change (operators, constants, conditions, dropped statements) to the given
files of a scratch copy of /repo, each judged by the checks of the properties anchored in that file.
Prints a line per change: caught by which check, does not compile, or SURVIVED."""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SCRATCH = os.environ.get("SCRATCH", "/tmp/automut-repo")
BUDGET = os.environ.get("SIM_BUDGET", "6")


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def props_of():
    m = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        if p["id"].startswith("N"):
            continue
        for f in p["anchors"]["files"]:
            m.setdefault(f, []).append(p["id"])
    return m


SWAPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
         (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* (?=[\w(])", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
         (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r"\+\+", ["--"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bnullptr\b", []),
         (r"(?<=[(&| ])!(?=[\w(])", [""]), (r"\bbreak;", [";", "return {};"]), (r"\bcontinue;", [";"])]
NUM = re.compile(r"(?<![\w.'\"])(\d+)([uU]?[lL]{0,2})(?![\w.'\"x])")


def mutants(text):
    lines = text.split("\n")
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment or s.startswith(("//", "#", "*", "/*", "template", "static_assert", "namespace", "using", "class", "struct", "public:", "private:")) or not s:
            comment = (comment or s.startswith("/*")) and "*/" not in s
            continue
        code = l.split("//")[0]
        strings = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', code)]
        inside = lambda p: any(a <= p < b for a, b in strings)
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                if inside(m.start()):
                    continue
                for r in reps:
                    yield i, f"{m.group(0).strip() or m.group(0)}->{r.strip()}", l[:m.start()] + r + l[m.end():]
        for m in NUM.finditer(code):
            if inside(m.start()):
                continue
            v = int(m.group(1))
            for w in sorted({v + 1, max(v - 1, 0)} - {v}):
                yield i, f"{v}->{w}", l[:m.start()] + str(w) + m.group(2) + l[m.end():]
        if s.endswith(";") and not re.match(r"(return|break|continue|const|auto|static|constexpr|explicit|virtual|using|throw)\b", s) and (re.match(r"[\w.>:*()\[\]-]+(\(.*\))?;$", s) or "=" in s and not re.match(r"[\w:<>]+ [&*]?\w+( = | ?\{|;|\()", s) or re.match(r"[\w.:>-]+\(.*\);$", s)):
            yield i, "dropped", re.match(r"\s*", l).group(0) + ";"
        m = re.match(r"(\s*)(else )?if \((.*)\)\s*$", code)
        if m and ";" not in m.group(3):
            yield i, "if(true)", f"{m.group(1)}{m.group(2) or ''}if (true || ({m.group(3)}))"
            yield i, "if(false)", f"{m.group(1)}{m.group(2) or ''}if (false && ({m.group(3)}))"
        m = re.match(r"(\s*)return (.*);$", code)
        if m and m.group(2) not in ("true", "false", "*this") and not m.group(2).endswith("{"):
            yield i, "return {}", f"{m.group(1)}return {{}};"


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = {int(a[7:]) for a in sys.argv[1:] if a.startswith("--line=")}
    late = ["S01"] if "--s01" in sys.argv else []
    if "--list" in sys.argv:
        n = 0
        for f in args:
            c = len(list(mutants(open(os.path.join("/repo", f)).read())))
            print(f, c)
            n += c
        print(n)
        return
    if not os.path.isdir(SCRATCH):
        run(["git", "clone", "-q", "/repo", SCRATCH])
    head = run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    run(["git", "-C", SCRATCH, "fetch", "-q", "/repo", "HEAD"])
    run(["git", "-C", SCRATCH, "checkout", "-q", "-f", head])
    owners = props_of()
    for f in args:
        path = os.path.join(SCRATCH, f)
        original = open(path).read()
        lines = original.split("\n")
        props = [p for p in owners.get(f, []) if p != "S01"] + late
        hits = {}
        for i, what, new in mutants(original):
            if only and i + 1 not in only:
                continue
            open(path, "w").write("\n".join(lines[:i] + [new] + lines[i + 1:]))
            t = time.time()
            res = "SURVIVED"
            for p in sorted(props, key=lambda p: -hits.get(p, 0)):
                r = run(["python3", os.path.join(VERIF, "check.py"), p], env=dict(os.environ, SIM_REPO=SCRATCH, SIM_BUDGET=BUDGET), cwd=VERIF)
                if r.returncode == 1:
                    res = "caught " + p
                    hits[p] = hits.get(p, 0) + 1
                    break
                if r.returncode not in (0, 1):
                    tail = r.stdout.strip().splitlines()
                    res = "compile" if "error:" in r.stdout or "build" in r.stdout.lower() else "ODD " + (tail[-1][:160] if tail else "")
                    break
            print(f"{res:12s} {time.time() - t:4.0f}s {f}:{i + 1} {what}: {new.strip()[:110]}", flush=True)
        open(path, "w").write(original)
    print("done", flush=True)


if __name__ == "__main__":
    main()
