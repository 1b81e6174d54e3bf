#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by simulation. See DESIGN.md."""
import json, os, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import simbuild
from checks import CHECKS

KNOWN = os.path.join(VERIF, "known_findings.txt")
JOBS = int(os.environ.get("SIM_JOBS", "8"))


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("ERROR:", msg)
    sys.exit(2)


def known_for(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("KNOWN property=%s " % prop):
                key = line.split("key=", 1)[1].split()[0]
                res.append((key, line.split("what=", 1)[1].strip()))
    return res


def run_part(prop, path, tag, scenario, confirm, tier, seed, limit, work, replays, isolate=False):
    """All workers of one part. Returns (stats list, violation path or None, text)."""
    procs = []
    for j in range(JOBS):
        out = os.path.join(work, f"{tag}-{scenario}-{j}{'i' if isolate else ''}")
        cmd = [path, "run", "--scenario", scenario, "--prop", prop, "--seed", str(seed), "--start", str(j), "--stride", str(JOBS),
               "--count", str(10**9), "--tier", tier, "--time-limit", str(limit), "--out", out, "--replay-dir", replays,
               "--known", KNOWN, "--tag", tag, "--min-time", "25"]
        if confirm:
            cmd += ["--confirm", confirm]
        if isolate:
            cmd += ["--isolate", "1"]
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work)))
    deadline = time.time() + limit + 120
    found, bad = None, []
    pending = dict(enumerate(procs))
    stats = []
    while pending:
        for j, (out, p) in list(pending.items()):
            rc = p.poll()
            if rc is None:
                continue
            del pending[j]
            o, e = p.communicate()
            if rc == 1:
                line = [l for l in o.decode(errors="replace").splitlines() if l.startswith("FOUND ")]
                if line and not found:
                    _, rp, text = line[0].split(" ", 2)
                    found = (rp, text)
                    # the others need not go on
                    for _, q in pending.values():
                        q.kill()
            elif rc != 0 and not (found and rc == -signal.SIGKILL):
                bad.append((rc, e.decode(errors="replace")[-500:]))
            if os.path.exists(out + ".json"):
                stats.append(json.load(open(out + ".json")))
        if pending and time.time() > deadline:
            for _, q in pending.values():
                q.kill()
            bad.append(("timeout", ""))
            deadline += 1e9
        time.sleep(0.02)
    if not found and bad:
        if isolate:
            die(f"worker of {tag}/{scenario} failed: {bad[0]}")
        # The code under test may have destroyed its worker: every run in a process of its own.
        say(f"worker of {tag}/{scenario} failed ({bad[0]}); repeating with isolated runs")
        return run_part(prop, path, tag, scenario, confirm, tier, seed, min(limit, 60), work, replays, True)
    return stats, found


def replay_ok(path, rp):
    r = subprocess.run([path, "replay", rp, "--known", KNOWN], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 1 and b"REPLAY reproduced" in r.stdout


def determinism(path, prop, tag, scenario, tier, seed):
    """The same runs in two processes, one of them starting elsewhere, must leave the same event logs."""
    def go(start, count):
        r = subprocess.run([path, "run", "--scenario", scenario, "--prop", prop, "--seed", str(seed), "--start", str(start), "--count", str(count),
                            "--tier", tier, "--known", KNOWN, "--hashes", "1", "--one", "1", "--time-limit", "20"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return dict(l.split()[1:3] for l in r.stdout.decode().splitlines() if l.startswith("H "))
    a, b = go(0, 60), go(30, 30)
    both = set(a) & set(b)
    for k in both:
        if a[k] != b[k]:
            return False, len(both)
    return True, len(both)


def replay(path):
    """check.py replay FILE: rebuilds the simulator from the working tree and replays the file."""
    binary = [l.strip().split("=", 1)[1] for l in open(path) if l.startswith("binary=")][0]
    try:
        b = simbuild.build([binary])[binary]
    except simbuild.BuildError as e:
        die(str(e)[:4000])
    sys.exit(subprocess.run([b, "replay", path, "--known", KNOWN, "--verbose", "1"]).returncode)


def main():
    prop = sys.argv[1]
    if prop == "replay":
        replay(os.path.abspath(sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    parts = c["parts"]
    names = sorted({p[0] for p in parts} | {p[3] for p in parts if p[3]})
    try:
        bins = simbuild.build(names)
    except simbuild.BuildError as e:
        die(str(e)[:4000])
    built = time.time()
    budget = float(os.environ.get("SIM_BUDGET", c[tier]))
    total_w = sum(p[2] for p in parts)
    work = tempfile.mkdtemp(prefix="simcheck-")
    os.environ["TMPDIR"] = work    # scratch directories of the simulators go with it
    violation = None
    per_part, hashes, states, samples = [], set(), set(), []
    tot = dict(runs=0, nontrivial=0, sim_us=0, steps=0, events=0, choices=0, unconfirmed=0)
    maps = {k: {} for k in ("faults", "probes", "schedules", "discards", "known")}
    det_checked = 0
    search = 0.0
    try:
        for binary, scenario, weight, confirm in parts:
            path = bins[binary]
            t1 = time.time()
            stats, found = run_part(prop, path, binary, scenario, bins.get(confirm) if confirm else None, tier, seed,
                                    max(1, round(budget * weight / total_w)), work, replays)
            wall = time.time() - t1
            search += wall
            pr = dict(binary=binary, scenario=scenario, runs=sum(s["runs"] for s in stats), wall_s=round(wall, 2))
            per_part.append(pr)
            for s in stats:
                for k in tot:
                    tot[k] += s[k]
                for k in maps:
                    for n, v in s[k].items():
                        maps[k][n] = maps[k].get(n, 0) + v
                samples += [f"{binary}/{scenario} {x}" for x in s["samples"]]
            for f in os.listdir(work):
                for ext, dst in ((".hashes", hashes), (".states", states)):
                    if f.endswith(ext):
                        raw = open(os.path.join(work, f), "rb").read()
                        salt = (len(per_part) * 0x9E3779B97F4A7C15) & (2**64 - 1)
                        dst.update(x ^ salt for (x,) in struct.iter_unpack("<Q", raw))
                        os.unlink(os.path.join(work, f))
            if found:
                rp, text = found
                if not (replay_ok(path, rp) and replay_ok(path, rp)):
                    die(f"the violation does not replay: {rp} {text}")
                violation = (rp, text)
                break
            ok, n = determinism(path, prop, binary, scenario, tier, seed)
            det_checked += n
            if not ok:
                die(f"{binary}/{scenario} is not deterministic")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    hours = max(search, 1e-9) / 3600
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["runs"], distinct_nontrivial=len(hashes), rule=c["rule"], samples=samples[:4] or ["(no sample short enough)"],
            nontrivial_runs=tot["nontrivial"], runs_per_hour=round(tot["runs"] / hours), seeds_per_hour=round(tot["runs"] / hours),
            simulated_seconds=round(tot["sim_us"] / 1e6, 3), faults_injected=maps["faults"], scheduling_decisions=maps["schedules"],
            rare_conditions_reached=maps["probes"], distinct_states=len(states),
            distinct_states_measure="abstract states reported by the scenario after each step (configuration, model state, outcome)",
            distinct_interleavings=len(hashes), distinct_interleavings_measure="event logs of non-trivial runs, by 64-bit hash",
            discarded_runs=maps["discards"], known_findings_seen=maps["known"], unconfirmed_wrap_candidates=tot["unconfirmed"],
            instrumented_accesses=tot["steps"], logged_events=tot["events"], choices_drawn=tot["choices"],
            parts=per_part, real_components=c["real"], stub_components=c["stub"],
            determinism_runs_compared=det_checked, build_s=round(built - t0, 2),
        ),
        assumptions=c["assumptions"], wall_s=round(wall, 2), violations=1 if violation else 0)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say(f"{prop}: {tot['runs']} runs ({len(hashes)} distinct non-trivial), {tot['sim_us'] / 1e6:.1f} s simulated, {len(states)} states, {wall:.1f} s")
    for key, what in known_for(prop):
        say(f"KNOWN-FINDING: property={prop} {what} [{key}, seen {maps['known'].get(key, 0)} times in this run]")
    if violation:
        say(violation[1])
        say(f"VIOLATION property={prop} replay={os.path.relpath(violation[0], VERIF)}")
        sys.exit(1)
    if tot["runs"] == 0:
        die("no run was executed")
    sys.exit(0)


if __name__ == "__main__":
    main()
