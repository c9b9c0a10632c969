#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its current source.

    check.py PROP --tier quick|thorough [--only HARNESS[:CASE]] [--verbose]

Exit 0: held on everything explored.  Exit 1: a counterexample was found by the solver and reproduced
by the real code (a VIOLATION line is printed).  Anything else: the check could not decide.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
B = os.environ.get("VT_BUILD", os.path.join(V, "build"))
T0 = time.time()
STRICT = os.environ.get("VT_STRICT")  # development: treat an unreproduced model as an error

ENV = dict(os.environ)
ENV.update(HOME="/root", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + ENV.get("PATH", "")
for k in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Fail(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def put(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def sync(src, dst):
    """copy the *.rs / Cargo.toml files of a crate, leaving unchanged files alone"""
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x != "target"]
        for f in fs:
            if f.endswith(".rs") or f == "Cargo.toml":
                p = os.path.join(d, f)
                put(os.path.join(dst, os.path.relpath(p, src)), open(p).read())


def build_rewriter():
    t = os.path.join(B, "target-rewrite")
    rc, o = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(V, "engine/rewrite/Cargo.toml"), "--target-dir", t])
    if rc:
        raise Fail("the translator does not build:\n" + o)
    return os.path.join(t, "debug/rewrite")


CARGO = """[package]
name = "bugi-%(prop)s"
version = "0.1.0"
edition = "2018"

[workspace]

[lib]
name = "bugi"
path = "src/lib.rs"

[[bin]]
name = "vt_main"
path = "src/vt_main.rs"

[dependencies]
vt = { path = "../eng-%(mode)s/vt" }
fastrand = { path = "../eng-%(mode)s/shims/fastrand" }
image = { path = "../eng-%(mode)s/shims/image" }

[profile.dev]
debug = false
opt-level = %(opt)s
debug-assertions = true
overflow-checks = true
incremental = false
[profile.dev.package.vt]
opt-level = 3
overflow-checks = false
debug-assertions = false
"""


def build(mode, prop, harness, rewriter, keep):
    eng = os.path.join(B, "eng-" + mode)
    sync(os.path.join(V, "engine/vt-" + mode), os.path.join(eng, "vt"))
    sync(os.path.join(V, "engine/common"), os.path.join(eng, "common"))
    for s in ("fastrand", "image"):
        sync(os.path.join(V, "engine/shims", s), os.path.join(eng, "shims", s))
        p = os.path.join(eng, "shims", s, "Cargo.toml")
        put(p, open(os.path.join(V, "engine/shims", s, "Cargo.toml")).read().replace('"../vt"', '"../../vt"'))
    d = os.path.join(B, "%s-%s" % (prop, mode))
    src = os.path.join(d, "src")
    cmd = [rewriter, mode, os.path.join(REPO, "src"), src]
    if keep:
        cmd += ["--keep", keep]
    for h in harness:
        cmd += ["--harness", h]
    rc, o = run(cmd)
    if rc:
        raise Fail("%s translation failed:\n%s" % (mode, o))
    put(os.path.join(d, "Cargo.toml"), CARGO % dict(prop=prop.lower(), mode=mode, opt="1" if mode == "sym" else "0"))
    mods = [os.path.basename(h)[:-3] for h in harness]
    put(os.path.join(src, "vt_main.rs"), "fn list() -> Vec<vt::Harness> { let mut v: Vec<vt::Harness> = vec![]; %s v }\nfn main() { vt::main(list) }\n"
        % " ".join("v.extend(bugi::%s::list());" % m for m in mods))
    t = os.path.join(B, "target-" + mode)
    rc, o = run(["cargo", "build", "--offline", "--quiet", "--bin", "vt_main", "--manifest-path", os.path.join(d, "Cargo.toml"), "--target-dir", t])
    if rc:
        raise Fail("%s build failed:\n%s" % (mode, o[-6000:]))
    exe = os.path.join(d, "vt_main")
    tmp = exe + ".%d" % os.getpid()
    shutil.copy2(os.path.join(t, "debug/vt_main"), tmp)
    os.replace(tmp, exe)
    return exe


def model_text(c):
    return "".join("v %s %s %s\n" % (n, h, t) for n, h, t in c["vars"]) + "".join("c %s %d\n" % (n, k) for n, k in c["choices"])


def replay(exe, name, case, c, path, extra):
    put(path, model_text(c))
    try:
        rc, o = run([exe, "replay", name, str(case), path] + extra, timeout=120)
    except subprocess.TimeoutExpired:
        return "timeout", "no answer in 120 s"
    if rc < 0:
        return "panic", "killed by signal %d: %s" % (-rc, o[-300:])
    return {0: "holds", 10: "false", 11: "panic", 20: "assumption"}.get(rc, "error"), o.strip()[-400:]


def load_known(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) case=(\S+) goal=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(dict(harness=m.group(2), case=m.group(3), goal=m.group(4), text=m.group(5)))
    return out


def is_known(known, job, c):
    for k in known:
        if k["harness"] == job[0] and k["case"] in ("*", str(job[1])) and c["what"].startswith(k["goal"]):
            return k
    return None


def setup():
    rewriter = build_rewriter()
    meta = json.load(open(os.path.join(V, "harness/meta.json")))
    m = meta[sorted(meta)[0]]
    for mode in ("sym", "native"):
        build(mode, "setup", [os.path.join(V, "harness/util.rs")], rewriter, None)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the translator and the run-time libraries ahead of the checks")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--keep-going", "-k", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.setup:
        return setup()
    thorough = a.tier == "thorough"
    meta = json.load(open(os.path.join(V, "harness/meta.json")))[a.prop]
    limit = meta.get("thorough_s", 3600) if thorough else meta.get("quick_s", 600)
    budget = meta.get("thorough_job_s", 1800) if thorough else meta.get("quick_job_s", 200)
    extra = ["--thorough"] if thorough else []
    harness = [os.path.join(V, "harness", h) for h in meta["harness"]]
    rp = os.path.join(B, "replay")
    os.makedirs(rp, exist_ok=True)

    rewriter = build_rewriter()
    with cf.ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(build, m, a.prop, harness, rewriter, meta.get("keep")) for m in ("sym", "native")]
        sym, nat = [f.result() for f in fs]
    log("built", a.prop)

    rc, o = run([sym, "list"] + extra)
    if rc:
        raise Fail("cannot list harnesses:\n" + o)
    jobs = []
    for l in o.splitlines():
        n, k = l.split()
        jobs += [(n, i) for i in range(int(k))]
    if a.only:
        n, _, c = a.only.partition(":")
        jobs = [j for j in jobs if j[0] == n and (not c or j[1] == int(c))]
    if not jobs:
        raise Fail("no harness to run")
    # spread the cases of different harnesses
    order = [x[0] for x in jobs]
    jobs.sort(key=lambda j: (j[1], order.index(j[0])))

    known = load_known(a.prop)
    stop = threading.Event()
    lock = threading.Lock()
    live, reports, viol, found, inconclusive, skipped = set(), [], [], [], [], []
    deadline = T0 + limit

    def work(job):
        # past a counterexample that the real code does not show, the search goes on
        for skip in (0, 1, 4, 20):
            if not work1(job, skip):
                return

    def work1(job, skip):
        if stop.is_set():
            return
        left = deadline - time.time()
        if left < 5:
            skipped.append("%s:%d" % job)
            return
        out = os.path.join(B, "%s-sym" % a.prop, "report-%s-%d.json" % job)
        if os.path.exists(out):
            os.remove(out)
        b = min(budget, left)
        p = subprocess.Popen([sym, "exec", job[0], str(job[1]), out, "--budget", str(b), "--skip", str(skip)] + extra, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        with lock:
            live.add(p)
        try:
            o, _ = p.communicate(timeout=b + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, _ = p.communicate()
            o += "\n(killed: over budget)"
        with lock:
            live.discard(p)
        if stop.is_set():
            return
        if not os.path.exists(out):
            r = dict(name=job[0], case=job[1], complete=False, error="no report (exit %s): %s" % (p.returncode, o[-800:]), paths=0, pruned=0, goals=0, by_solver=0, by_norm=0, by_elim=0, branches=0, forks=0, unknown_branch=0, unknown_goals=[], queries=0, solver_s=0, wall_s=0, fns=[], goal_names={}, witnesses=[], cex=None, out_of_time="killed" in o)
        else:
            r = json.load(open(out))
        r["replays"] = []
        for i, w in enumerate(r["witnesses"]):
            k, t = replay(nat, job[0], job[1], w, os.path.join(rp, "%s-%s-%d-w%d.txt" % (a.prop, job[0], job[1], i)), extra)
            r["replays"].append((k, w["exact"], t))
        with lock:
            if skip:
                reports[:] = [x for x in reports if (x["name"], x["case"]) != job]
            reports.append(r)
        c, again = r["cex"], False
        if c:
            path = os.path.join(rp, "%s-%s-%d.txt" % (a.prop, job[0], job[1]))
            k, t = replay(nat, job[0], job[1], c, path, extra)
            how = extra
            if k != "panic" and c["kind"] == "prove" and ("FALSE " + c["what"]) not in t:
                # not missed by more than the tolerance: is the difference there under every rounding?
                k2, t2 = replay(nat, job[0], job[1], c, path, extra + ["--strict", c["what"]])
                if k2 == "false":
                    k, t, how = k2, t2, extra + ["--strict", "'%s'" % c["what"].replace("\n", " ")]
            with open(path, "a") as f:
                f.write("# property %s, %s: %s\n# real code: %s %s\n# replay: %s replay %s %d %s %s\n" % (a.prop, c["kind"], c["what"].replace("\n", " "), k, t.replace("\n", " "), nat, job[0], job[1], path, " ".join(how)))
            if len(viol) < 4 or a.verbose:
                log("counterexample", job, c["kind"], c["what"], "->", k, t.splitlines()[-1] if t else "")
            # the same goal must fail in the real code; a goal that fails for another reason is rounding
            ok = k == "panic" or (k == "false" and c["kind"] == "prove" and ("FALSE " + c["what"]) in t)
            kf = is_known(known, job, c) if ok else None
            with lock:
                if kf:
                    found.append(kf)
                elif ok:
                    viol.append((job, path, c, t))
                    if not a.keep_going:
                        stop.set()
                        for q in list(live):
                            try:
                                os.killpg(q.pid, 9)
                            except OSError:
                                pass
                else:
                    again = True
                    if c["what"] not in [x[2]["what"] for x in inconclusive if x[0] == job]:
                        inconclusive.append((job, path, c, k, t))
        if a.verbose or r["error"]:
            log("%s:%d complete=%s paths=%d pruned=%d goals=%d (solver %d, norm %d, elim %d) forks=%d unkb=%d unkg=%s q=%d solver=%.1fs wall=%.1fs replays=%s %s" % (r["name"], r["case"], r["complete"], r["paths"], r["pruned"], r["goals"], r["by_solver"], r["by_norm"], r["by_elim"], r["forks"], r["unknown_branch"], r["unknown_goals"][:5], r["queries"], r["solver_s"], r["wall_s"], [x[0] for x in r["replays"]], r["error"] or ""))
        return again

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(work, jobs))

    S = lambda k: sum(r[k] for r in reports)
    errors = ["%s:%d %s" % (r["name"], r["case"], r["error"]) for r in reports if r["error"] and not r["out_of_time"]]
    vac = ["%s:%d" % (r["name"], r["case"]) for r in reports if not r["cex"] and not r["error"] and r["complete"] and (r["paths"] == 0 or r["goals"] == 0)]
    partial = ["%s:%d" % (r["name"], r["case"]) for r in reports if not r["complete"] or r["unknown_goals"] or r["unknown_branch"]]
    unk = sorted({"%s:%d %s" % (r["name"], r["case"], g) for r in reports for g in r["unknown_goals"]})
    reps = [(r["name"], r["case"]) + tuple(x) for r in reports for x in r["replays"]]
    fns = sorted({f for r in reports for f in r["fns"]})
    goals = {}
    for r in reports:
        for g, n in r["goal_names"].items():
            goals[g] = goals.get(g, 0) + n
    samples = [dict(harness=r["name"], case=r["case"], inputs=[[n, t] for n, _, t in w["vars"]][:40], choices=w["choices"][:40]) for r in reports for w in r["witnesses"][:1]][:6]
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(
            states=S("paths"), transitions=S("branches"),
            traces_validated_against_impl=sum(1 for x in reps if x[2] == "holds"), samples=samples,
            explanation="states = feasible symbolic paths executed to the end, each standing for every input value that satisfies its path condition; transitions = branch decisions on symbolic values; traces = solver models of explored paths re-run on the untranslated f64 code with every goal holding",
            harness_cases=len(jobs), cases_complete=sum(1 for r in reports if r["complete"]), cases_not_exhausted=partial, cases_skipped=skipped,
            paths_pruned_infeasible=S("pruned"), goals_checked=S("goals"), goals_closed_by_solver=S("by_solver"), goals_closed_by_normal_form=S("by_norm"), goals_closed_by_elimination=S("by_elim"),
            goals_undecided=unk, branch_forks=S("forks"), branches_undecided=S("unknown_branch"),
            solver_queries=S("queries"), solver_time_s=round(S("solver_s"), 2), functions_encoded=fns, goals_by_name=goals, bounds=meta["bounds"],
            witness_replays=[dict(harness=n, case=c, result=k, exact=e, detail=t) for n, c, k, e, t in reps if k != "holds"],
            known_findings=[k["text"] for k in found], errors=errors, vacuous=vac,
            unreproduced=[dict(harness=j[0], case=j[1], goal=c["what"], native=k, detail=t) for j, _, c, k, t in inconclusive]),
        assumptions=meta.get("assumptions", []) + ["f64 arithmetic is read as exact real arithmetic (rounding, overflow and NaN payloads are outside the claim; division by zero and the resulting inf/NaN are modelled)"],
        wall_s=round(time.time() - T0, 1), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("paths %d goals %d (norm %d, elim %d, solver %d) forks %d queries %d solver %.1fs; cases %d/%d complete, undecided goals %d, undecided branches %d; replays %d/%d" % (S("paths"), S("goals"), S("by_norm"), S("by_elim"), S("by_solver"), S("forks"), S("queries"), S("solver_s"), sum(1 for r in reports if r["complete"]), len(jobs), len(unk), S("unknown_branch"), sum(1 for x in reps if x[2] == "holds"), len(reps)))
    for x in reps:
        if x[2] != "holds":
            log("witness replay:", x)
    for u in unk[:20]:
        log("undecided:", u)
    if partial:
        log("not exhausted:", partial[:40])
    if skipped:
        log("skipped:", skipped[:40])
    seen = set()
    for k in found:
        if k["text"] not in seen:
            seen.add(k["text"])
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["text"]))
    if viol:
        for job, path, c, t in viol[:1]:
            print("counterexample %s case %d: %s (%s); real code: %s" % (job[0], job[1], c["what"], c["kind"], t))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    # a solver model the real code does not reproduce is no violation: recorded, not raised
    for j, _, c, k, t in inconclusive:
        print("INCONCLUSIVE not reproduced: %s:%d %s -> %s %s" % (j[0], j[1], c["what"], k, t.replace("\n", " ")))
    if errors or vac or (inconclusive and STRICT):
        for e in errors + ["vacuous: " + x for x in vac]:
            print("ERROR " + e)
        return 3
    print("OK property=%s tier=%s paths=%d goals=%d" % (a.prop, a.tier, S("paths"), S("goals")))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("ERROR", e)
        sys.exit(2)
