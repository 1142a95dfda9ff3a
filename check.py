#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> [quick|thorough] | check.py --replay <file> | check.py --setup

Builds what the property needs from /repo's current working tree, runs its jobs
(generated-input searches) in parallel, merges their reports into
evidence/<PROPERTY>.json and prints the verdict.

Exit 0: held. Exit 1 (with a VIOLATION line): broken. Exit 2: error.
"""
import concurrent.futures as cf
import fcntl
import json
import os
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
os.chdir(ROOT)
BUILD = os.path.join(ROOT, "build")
NPROC = os.cpu_count() or 4

import plan  # noqa: E402  (harness/plan.py: which jobs decide which property)


class Broken(Exception):
    """The machinery (not the property) failed."""


# What a shard ends with when a case does not come back.
HUNG = 3
PRLIMIT = shutil.which("prlimit")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo(manifest, features, exe, dest, extra=()):
    """Build one harness binary and put a copy at dest."""
    target = os.path.join(BUILD, "target")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", manifest, "--target-dir", target, *extra]
    if features:
        cmd += ["--features", features]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken(f"build failed: {' '.join(cmd)}\n{p.stdout[-6000:]}")
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    src = os.path.join(target, "debug", exe)
    tmp = dest + ".tmp"
    subprocess.run(["cp", src, tmp], check=True)
    os.replace(tmp, dest)


def build_all(keys, spare=()):
    """Build these. The spare ones may fail, as long as something else works."""
    os.makedirs(BUILD, exist_ok=True)
    out = {}
    failed = None
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for key in keys:
            t = time.time()
            dest = os.path.join(BUILD, "bin", key)
            try:
                plan.BINARIES[key](dest, cargo, ROOT, BUILD, Broken)
            except Broken as e:
                if key not in spare:
                    raise
                log(f"WARNING: {key} cannot be used: {e}")
                failed = e
                continue
            out[key] = dest
            log(f"built {key} in {time.time() - t:.1f}s")
    if failed and not any(k in spare for k in out):
        raise failed
    return out


def job_env(job):
    env = dict(os.environ)
    # (Every arena takes address space, which is limited.)
    env["MALLOC_ARENA_MAX"] = "8"
    env.update({k: v.replace("@BUILD@", BUILD).replace("@ROOT@", ROOT) for k, v in job.get("env", {}).items()})
    return env


# How long what is still running once a violation has been found may go on (it
# may find a smaller one, or be shrinking what it found).
GRACE = 60


class Stop:
    """Tells the jobs when to end."""
    at = None

    def soon(self):
        if self.at is None:
            self.at = time.time() + GRACE

    def now(self):
        return self.at is not None and self.at < time.time()


def run_until(stop, cmd, env, err):
    """Run a command; None if it had to be stopped."""
    p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
    wait = 0.02
    while True:
        try:
            p.wait(wait)
            return p
        except subprocess.TimeoutExpired:
            wait = min(wait * 2, 0.5)
        if stop.now():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return None


def run_job(bins, job, work, stop):
    """One shard of one job. Returns (job, report or None, failure or None)."""
    tag = f"{job['bin']}.{job['name']}.{job['shard']}"
    out = os.path.join(work, tag + ".json")
    cmd = [bins[job["bin"]], job["name"], "--cases", str(job["cases"]), "--seed", str(job["seed"]), "--shard", str(job["shard"]), "--out", out]
    cmd += ["--case-timeout", str(job.get("case_timeout", 60))]
    env = job_env(job)
    scratch = os.path.join(work, tag + ".d")
    os.makedirs(scratch, exist_ok=True)
    env["SCRATCH"] = scratch
    errp = os.path.join(work, tag + ".err")
    # Code that allocates without end must not take the sandbox down.
    most = job.get("memory", 3 << 30)
    cap = ["prlimit", f"--as={most}"] if most and PRLIMIT else []
    with open(errp, "wb") as err:
        p = run_until(stop, cap + cmd, env, err)
    if p is None:
        # What it had found by then, if anything.
        if os.path.exists(out + ".fail"):
            with open(out + ".fail") as f:
                return job, None, json.load(f)
        return job, None, None
    if p.returncode in (0, 1):
        with open(out) as f:
            rep = json.load(f)
        rep["hashfile"] = out + ".hashes"
        return job, rep, rep.get("failure")
    if os.path.exists(out + ".fail"):
        # It had found something before it came to grief.
        with open(out + ".fail") as f:
            return job, None, json.load(f)
    with open(errp, "rb") as f:
        tail = f.read()[-4000:].decode("utf-8", "replace")
    died = lambda q: q.returncode < 0 and -q.returncode in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)
    hung = lambda q: q.returncode == HUNG
    for gone, what in ((died, "the process died of signal {}"), (hung, "no end after {} seconds")):
        if not gone(p):
            continue
        # The code under test took the process down, or never came back: find
        # the case, and make sure it does so again in a fresh process.
        trace = os.path.join(work, tag + ".trace")
        with open(errp, "wb") as err:
            q = run_until(stop, cap + cmd + ["--trace", trace], env, err)
        if q is None:
            return job, None, None
        if gone(q) and os.path.exists(trace):
            again = [bins[job["bin"]], job["name"], "--replay", trace, "--case-timeout", str(job.get("case_timeout", 60))]
            with open(errp, "wb") as err:
                r = run_until(stop, cap + again, env, err)
            if r is None:
                return job, None, None
            if gone(r):
                with open(trace) as f:
                    case = json.load(f)["case"]
                return job, None, {"message": what.format(-r.returncode if gone is died else job.get("case_timeout", 60)), "case": case}
    raise Broken(f"{tag}: exit {p.returncode}\n{tail}")


def known_findings(prop):
    """finding: property=<id> key=<substring of the failure message> :: <text>"""
    out = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith(f"finding: property={prop} "):
                body = line.split(" ", 2)[2]
                key, _, text = body.partition(" :: ")
                out.append((key.removeprefix("key="), text))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    spec = plan.PROPS[prop]
    jobs = []
    for idx, j in enumerate(spec["jobs"]):
        n = j["cases"] if tier == "quick" else j.get("thorough", j["cases"] * plan.THOROUGH_FACTOR)
        shards = j.get("shards", NPROC)
        for k in range(shards):
            jj = dict(j, shard=k, cases=max(1, n // shards), seed=seed * 1000 + idx)
            if callable(jj.get("shard_env")):
                jj["env"] = dict(jj.get("env", {}), **jj["shard_env"](k, seed))
            jj.pop("shard_env", None)
            jobs.append(jj)
    for k, v in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {v}")
    # Some variants replace the standard library by one of their own. Should
    # the code use a part of it that is missing there, the others must do.
    used = {j["bin"] for j in jobs}
    bins = build_all(sorted(used | set(spec.get("needs", []))), used if 1 < len(used) else ())
    jobs = [j for j in jobs if j["bin"] in bins]
    t1 = time.time()
    work = os.path.join(BUILD, "work", prop)
    subprocess.run(["rm", "-rf", work], check=True)
    os.makedirs(work)
    reports, failures = [], []
    broken = None
    # (What mostly waits does not count as work.)
    with cf.ThreadPoolExecutor(max_workers=spec.get("parallel", NPROC)) as ex, cf.ThreadPoolExecutor(max_workers=48) as idle:
        stop = Stop()
        futs = [(idle if j.get("light") else ex).submit(run_job, bins, j, work, stop) for j in jobs]
        for f in cf.as_completed(futs):
            try:
                job, rep, failure = f.result()
            except cf.CancelledError:
                continue
            except Broken as e:
                broken = broken or e
                continue
            if rep:
                reports.append((job, rep))
            if failure:
                failures.append((job, failure))
                stop.soon()
                for g in futs:
                    g.cancel()
    if broken and not failures:
        raise broken
    # Union of the distinct non-trivial cases, per kind of job.
    distinct = 0
    by_name = {}
    for job, rep in reports:
        by_name.setdefault(job["name"], []).append((job, rep))
    samples, labels, rules, evaluations = [], {}, [], 0
    exhaustive = {}
    for name in sorted(by_name):
        group = sorted(by_name[name], key=lambda x: (x[0]["bin"], x[0]["shard"]))
        files = [rep["hashfile"] for _, rep in group]
        p = subprocess.run([bins[group[0][0]["bin"]], "--merge", *files], stdout=subprocess.PIPE, text=True, check=True)
        distinct += int(p.stdout)
        rules.append(f"{name}: {group[0][1]['rule']}")
        got = 0
        for job, rep in group:
            evaluations += rep["evaluations"]
            for k, v in rep["labels"].items():
                labels[f"{name}: {k}"] = labels.get(f"{name}: {k}", 0) + v
            if got < 3 and rep["samples"]:
                samples.append({"job": name, "variant": job["bin"], "case": rep["samples"][0]})
                got += 1
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": " | ".join(rules), "samples": samples,
            "classes": labels, "variants": sorted({j["bin"] for j in jobs}), "jobs": len(jobs), "build_s": round(t1 - t0, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": 1 if failures else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    log(f"{prop}: {evaluations} cases, {distinct} distinct non-trivial, {wall:.1f}s ({t1 - t0:.1f}s building)")
    for k in sorted(labels):
        log(f"    {k}: {labels[k]}")
    subprocess.run(["rm", "-rf", work], check=True)
    if failures:
        failures.sort(key=lambda x: len(json.dumps(x[1])))
        job, failure = failures[0]
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "bin": job["bin"], "name": job["name"], "env": job.get("env", {}), "seed": job["seed"], "shard": job["shard"],
                       "message": failure["message"], "case": failure["case"]}, f, indent=1)
            f.write("\n")
        print(failure["message"][:4000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK property={prop} evaluations={evaluations} distinct_nontrivial={distinct}")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    bins = build_all(sorted({r["bin"]} | set(plan.PROPS[r["property"]].get("needs", []))))
    work = os.path.join(BUILD, "work", "replay")
    os.makedirs(work, exist_ok=True)
    env = job_env(r)
    env["SCRATCH"] = work
    p = subprocess.run([bins[r["bin"]], r["name"], "--replay", os.path.abspath(path)], env=env, stdin=subprocess.DEVNULL)
    if p.returncode == 0:
        return 0
    if p.returncode == 1 or p.returncode < 0:
        print(f"VIOLATION property={r['property']} replay={os.path.abspath(path)}")
        return 1
    return 2


def main():
    args = sys.argv[1:]
    try:
        if args[:1] == ["--setup"]:
            build_all(sorted(plan.BINARIES))
            return 0
        if args[:1] == ["--replay"]:
            return replay(args[1])
        prop = args[0]
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        return check(prop, tier, seed)
    except Broken as e:
        log(f"ERROR: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
