#!/usr/bin/env python3
"""Decides one property of boostorg/multi_index by bounded exhaustive exploration of the real code.

  check.py C01 [--tier quick|thorough]      run the check of a property (exit 0 held / exit 1 VIOLATION)
  check.py --replay FILE                    rebuild and replay a stored counterexample
  check.py --list                           list the jobs of every property

Every job compiles a harness of /verif/harness against /repo/include (current working tree) in a scratch
directory, runs it, and replays whatever it finds before it is reported.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")          # development aid; the registered commands use /repo
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or max(2, os.cpu_count() or 2)
procs, plock = set(), threading.Lock()
stop = threading.Event()


def run(cmd, timeout, cwd=None, env=None):
    """Run a command in its own process group; returns (rc, stdout+stderr); rc None on timeout / stop."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=e, start_new_session=True)
    with plock:
        procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    finally:
        with plock:
            procs.discard(p)
    return rc, out.decode("utf-8", "replace")


def kill_all():
    stop.set()
    with plock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_container_overflow=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "TSAN_OPTIONS": "report_bugs=0"}


def compile_cmd(job, out):
    inc = ["-I" + REPO + "/include"]
    guard = "/opt/vp/cmake/guard"
    if os.path.isdir(guard):
        inc += ["-isystem", guard]
    cmd = [job.get("cxx", "g++"), "-std=" + job.get("std", "c++17"), job.get("opt", "-O1"), "-g1", "-w", "-fno-omit-frame-pointer"] + inc
    if job.get("san"):
        cmd += ["-fsanitize=" + job["san"], "-fno-sanitize-recover=all"]
    cmd += ["-D" + d for d in job.get("defs", [])] + job.get("flags", [])
    if job.get("conc"):  # instrumented harness + uninstrumented runtime, without libtsan
        base = " ".join(shlex.quote(c) for c in cmd)
        h = os.path.join(HERE, "harness")
        return ["bash", "-c", "%s -fsanitize=thread -c %s/conc.cpp -o %s.1.o && g++ -std=c++17 -O2 -g1 -w -fno-builtin -c %s/conc_rt.cpp -o %s.2.o && g++ %s.1.o %s.2.o -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -o %s" % (base, h, out, h, out, out, out, out)]
    cmd += [os.path.join(HERE, "harness", s) for s in job["src"]] + ["-o", out] + job.get("libs", [])
    return cmd


class Builder:
    def __init__(self, scratch):
        self.scratch, self.lock, self.done = scratch, threading.Lock(), {}

    def build(self, job):
        key = hashlib.sha1(json.dumps(compile_cmd(job, "X")).encode()).hexdigest()[:12]
        with self.lock:
            fut = self.done.get(key)
            if fut is None:
                fut = self.done[key] = cf.Future()
                mine = True
            else:
                mine = False
        if not mine:
            return fut.result()
        exe = os.path.join(self.scratch, "b_" + key)
        try:
            for attempt in range(2):
                rc, out = run(compile_cmd(job, exe), 600)
                if rc == 0 or stop.is_set() or (rc == 1 and "error:" in out):
                    break
            fut.set_result((exe if rc == 0 else None, rc, out))
        except BaseException as ex:  # never leave a waiter hanging
            fut.set_result((None, -1, repr(ex)))
        return fut.result()


def parse(out):
    st, found = None, None
    for l in out.splitlines():
        if l.startswith("STATS "):
            try:
                st = json.loads(l[6:])
            except ValueError:
                pass
        elif l.startswith("FOUND "):
            found = l[6:]
    return st, found


def do_job(prop, job, b, tier, deadline):
    r = {"name": job["name"], "ok": True, "stats": None}
    exe, rc, out = b.build(job)
    if stop.is_set():
        return r
    if exe is None and job.get("optional") and rc == 1 and "error:" in out:   # looks at an internal component that may be gone
        r["skipped"] = True
        return r
    if exe is None:
        r.update(ok=False, kind="build", msg="the harness no longer compiles against the library", out=out, rc=rc)
        return r
    art = os.path.join(b.scratch, job["name"] + ".replay")
    args = job["args"] if tier == "quick" else job.get("targs", job["args"])
    for attempt in range(2):
        if os.path.exists(art):
            os.remove(art)
        t0 = time.time()
        rc, out = run([exe] + args + ["--art=" + art], max(5, deadline - time.time()), env=ENV)
        st, found = parse(out)
        r["wall"] = time.time() - t0
        r["stats"] = st
        if stop.is_set():
            return r
        if rc == 0 and st is not None:
            return r
        if rc is None:
            r.update(ok=True, timeout=True)
            return r
        # something went wrong: confirm by replaying the recorded counterexample
        msg = found or next((l for l in out.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or "HANG" in l or "DOUBLE-DESTROY" in l or "use of a destroyed" in l), "process ended with status %s" % rc)
        confirmed = False
        if os.path.exists(art):
            for _ in range(2):
                rrc, rout = run([exe] + job.get("rargs", []) + ["--replay=" + art], 120, env=ENV)
                if rrc is None or rrc != 0:
                    confirmed = True
                    break
        r.update(ok=False, kind="run", msg=msg, out=out, rc=rc, art=art, confirmed=confirmed)
        if confirmed or stop.is_set():
            return r
    # found twice in a row but not by replay alone (e.g. behaviour that depends on uninitialised memory)
    return r


def save_replay(prop, job, r):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.replay" % (prop, job["name"]))
    with open(p, "w") as f:
        f.write("# property %s\nJOB %s\n# %s\n" % (prop, job["name"], r["msg"].replace("\n", " ")[:500]))
        if r.get("art") and os.path.exists(r["art"]):
            f.write(open(r["art"], errors="replace").read())
        f.write("".join("# " + l + "\n" for l in r["out"].splitlines()[-60:]))
    return p


def known_findings(prop):
    res, path = [], os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                res.append(l[len("finding: property=%s " % prop):])
    return res


def check(prop, tier):
    t0 = time.time()
    limit = float(os.environ.get("VERIF_LIMIT", 840 if tier == "quick" else 7200))
    deadline = t0 + limit
    jl = J.jobs(prop, tier)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    res, bad = {}, []
    try:
        b = Builder(scratch)
        ex = cf.ThreadPoolExecutor(NPROC)
        futs = {ex.submit(do_job, prop, j, b, tier, deadline): j for j in jl}
        for f in cf.as_completed(futs):
            j, r = futs[f], f.result()
            res[j["name"]] = r
            if r.get("stats") is not None or not r["ok"] or r.get("timeout"):
                s = r.get("stats") or {}
                print("  %-28s %s states=%s transitions=%s %.1fs%s" % (j["name"], "ok" if r["ok"] else "FAIL", s.get("states"), s.get("transitions"), r.get("wall", 0), "" if s.get("fixpoint", True) and not r.get("timeout") else "  (bounded)"), flush=True)
            if not r["ok"] and not bad:
                bad.append((j, r))
                path = save_replay(prop, j, r)
                r["path"] = path
                kill_all()
        ex.shutdown(wait=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = evidence(prop, tier, jl, res, bad, time.time() - t0)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if bad:
        j, r = bad[0]
        print("%s: %s" % (j["name"], r["msg"]))
        if r["kind"] == "build":
            print("\n".join([l for l in r["out"].splitlines() if "error" in l][:8]))
        else:
            print("\n".join(r["out"].splitlines()[-12:]))
        print("VIOLATION property=%s replay=%s" % (prop, r["path"]))
        return 1
    print("%s held: %s" % (prop, json.dumps({k: v for k, v in ev["coverage"].items() if isinstance(v, (int, bool))})))
    return 0


def evidence(prop, tier, jl, res, bad, wall):
    P = J.PROPS[prop]
    tot, per, samples = {}, [], []
    exhaustive = not bad
    for j in jl:
        r = res.get(j["name"])
        s = (r or {}).get("stats")
        if not s:
            exhaustive = False
            continue
        for k, v in s.items():
            if isinstance(v, bool):
                continue
            if isinstance(v, int) and not k.startswith("max_"):
                tot[k] = tot.get(k, 0) + v
        if not s.get("fixpoint", True):
            exhaustive = False
        per.append({"job": j["name"], "bounds": " ".join(j["args"] if tier == "quick" else j.get("targs", j["args"])), "defs": j.get("defs", []),
                    **{k: v for k, v in s.items() if k not in ("sample", "ops")}})
        if s.get("sample") and len(samples) < 6:
            samples.append("%s: %s" % (j["name"], s["sample"]))
    cov = {"exhaustive": exhaustive}
    if P["level"] == "fault_enumeration":
        cov.update(evaluations=tot.get("executions", 0), distinct_nontrivial=tot.get("fault_executions", 0),
                   rule="an execution is a history of operations from a fresh container; it is non-trivial when an exception was injected into its last operation, at a point (the k-th user-provided operation of that call) not tried before in that state",
                   states=tot.get("states", 0), transitions=tot.get("transitions", 0))
    elif P["level"] == "exploration":
        cov.update(evaluations=tot.get("executions", tot.get("transitions", 0)), distinct_nontrivial=tot.get("states", 0), rule=P.get("rule", "distinct canonical states reached"), transitions=tot.get("transitions", 0))
    else:
        cov.update(states=tot.get("states", 0), transitions=tot.get("transitions", 0), traces_validated_against_impl=tot.get("executions", 0))
    for k, v in tot.items():
        if k not in ("states", "transitions", "executions", "fault_executions"):
            cov.setdefault(k, v)
    cov["samples"] = samples
    cov["jobs"] = per
    return {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P["level"], "coverage": cov,
            "assumptions": P.get("assumptions", []) + J.COMMON_ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(bad)}


def replay(path):
    prop = job = None
    for l in open(path, errors="replace"):
        if l.startswith("# property "):
            prop = l.split()[2]
        if l.startswith("JOB "):
            job = l.split()[1]
    for tier in ("quick", "thorough"):
        for j in J.jobs(prop, tier):
            if j["name"] == job:
                scratch = tempfile.mkdtemp(prefix="verif-replay-")
                try:
                    exe, rc, out = Builder(scratch).build(j)
                    if exe is None:
                        print(out)
                        return 1
                    rc, out = run([exe] + j.get("rargs", []) + ["--replay=" + path], 300, env=ENV)
                    print(out)
                    return 0 if rc == 0 else 1
                finally:
                    shutil.rmtree(scratch, ignore_errors=True)
    print("no such job: %s %s" % (prop, job))
    return 2


def main():
    a = sys.argv[1:]
    if a[:1] == ["--list"]:
        for p in J.PROPS:
            for t in ("quick", "thorough"):
                print(p, t, [j["name"] for j in J.jobs(p, t)])
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.exit(main())
