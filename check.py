#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree by symbolic execution (see DESIGN.md).
Exit 0: held on everything explored. Exit 1 with `VIOLATION property=.. replay=..`: broken, and the
counterexample was replayed against the real code. Exit 2: no answer."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import ir  # noqa: E402
import jobs as J  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
JSYM = os.path.join(HERE, "engine/target/release/jsym")
NATIVE = os.path.join(BUILD, "native/debug/native")
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def die(msg):
    print("INCONCLUSIVE:", msg, flush=True)
    sys.exit(2)


def fingerprint():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def forget():
    """drop cargo's freshness records of everything that depends on /repo when its content changed"""
    fp = fingerprint()
    f = os.path.join(BUILD, "fingerprint")
    if os.path.exists(f) and open(f).read() == fp:
        return
    for base in ("ir", "native"):
        for d, ds, _ in os.walk(os.path.join(BUILD, base)):
            if os.path.basename(d) == ".fingerprint":
                for x in ds:
                    if x.startswith(("jester", "h_", "native")):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
    os.makedirs(BUILD, exist_ok=True)
    open(f, "w").write(fp)


def sh(cmd, cwd):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["RUSTFLAGS"] = "--cfg jester_verif --cap-lints=allow"
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("%s:\n%s" % (" ".join(cmd), p.stdout[-5000:]))


def build(crates):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    forget()

    def engine():
        sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(HERE, "engine/target")], os.path.join(HERE, "engine"))

    def native():
        feats = ",".join(crates)
        sh(["cargo", "build", "--offline", "-p", "native", "--no-default-features", "--features", feats, "--target-dir", os.path.join(BUILD, "native")], HARNESS)

    def irs():
        for c in crates:
            ir.build(c, os.path.join(BUILD, c + ".ll"))

    with cf.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(engine), ex.submit(native), ex.submit(irs)]:
            f.result()
    fcntl.flock(lock, fcntl.LOCK_UN)


stop = threading.Event()
live = set()
live_lock = threading.Lock()


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def run_job(job, budget):
    """one job of the symbolic executor; returns its report"""
    t = min(job.time, budget)
    cmd = [JSYM, os.path.join(BUILD, job.crate + ".ll"), "j", job.entry, "p=" + ",".join(map(str, job.p)), "time=%d" % (t * 1000)]
    cmd += ["%s=%s" % kv for kv in job.opts.items()]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
    with live_lock:
        live.add(p.pid)
    try:
        out, err = p.communicate(timeout=t + 60)
    except subprocess.TimeoutExpired:
        kill(p.pid)
        p.communicate()
        return dict(status="inconclusive", inconclusive=["time limit"], violations=[])
    finally:
        with live_lock:
            live.discard(p.pid)
    try:
        return json.loads(out.strip().splitlines()[-1])
    except (IndexError, ValueError):
        return dict(status="inconclusive", inconclusive=["executor ended with %s: %s" % (p.returncode, err[-500:])], violations=[])


def kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def replay(job, inputs, timeout=120):
    """run the harness natively against the real code: (exit code, trace, end line)"""
    arg = ",".join(inputs) if inputs else "-"
    tmp = None
    if len(arg) > 100000:
        tmp = os.path.join(BUILD, "in-%d-%d" % (os.getpid(), threading.get_ident()))
        open(tmp, "w").write(arg)
        arg = "@" + tmp
    try:
        p = subprocess.run([NATIVE, job.entry, ",".join(map(str, job.p)) or "-", arg], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -1, None, "native run did not end"
    finally:
        if tmp:
            os.remove(tmp)
    tr, end = None, ""
    for l in p.stdout.splitlines():
        if l.startswith("JSYM-TRACE"):
            tr = [x for x in l[10:].strip().split(",") if x]
        if l.startswith("JSYM-END"):
            end = l
    return p.returncode, tr, end or (p.stdout + p.stderr)[-300:]


def known(prop):
    f = os.path.join(HERE, "known_findings.json")
    return [k for k in json.load(open(f))["known"] if k["property"] == prop] if os.path.exists(f) else []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = J.PROPS[prop]
    js = list(spec["quick"]) + (list(spec["thorough"]) if tier == "thorough" else [])
    hard = 780 if tier == "quick" else 6 * 3600
    try:
        build(sorted({j.crate for j in js}))
    except RuntimeError as e:
        die("build failed: %s" % e)
    log("built; %d jobs" % len(js))
    js.sort(key=lambda j: -j.cost)
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    results, viol, findings, notes = [], [], [], []
    counts = dict(traces=0, mismatch=0)
    lock = threading.Lock()

    def one(job):
        todo = [job] + list(job.alt)
        for j in todo:
            if stop.is_set():
                return
            left = hard - (time.time() - T0)
            if left < 5:
                with lock:
                    results.append((j, dict(status="inconclusive", inconclusive=["out of time"], violations=[])))
                return
            r = run_job(j, left)
            if stop.is_set():
                return
            st = r.get("status")
            if st == "ok" and (r["paths"] < 1 or r["asserts"] < 1) and not j.may_be_empty:
                st = r["status"] = "inconclusive"
                r["inconclusive"] = ["vacuous: no path reached an assertion"]
            for v in r.get("violations", []):
                code, _, end = replay(j, v["inputs"])
                if j.certificate and code == 0:
                    # the solver refutes a sufficient condition only
                    st = r["status"] = "inconclusive"
                    r.setdefault("inconclusive", []).append("not certified: " + v["msg"])
                elif code in (3, 4):
                    hit = [k for k in known(prop) if k["entry"] == j.entry and k["params"] == list(j.p) and k["message"] in end]
                    with lock:
                        if hit:
                            findings.append((hit[0], v))
                        else:
                            viol.append((j, v, code, end))
                            stop.set()
                else:
                    # memory errors and the like need not show natively
                    st = r["status"] = "inconclusive"
                    r.setdefault("inconclusive", []).append("counterexample not reproduced natively (%s, %s): %s" % (code, end, v["msg"]))
            if st == "violation" and not stop.is_set():
                st = "ok"  # known findings only
            if st == "ok" and j.validate:
                for inp, tr in r.get("traces", []):
                    code, nt, end = replay(j, inp)
                    with lock:
                        if code in (3, 4):
                            viol.append((j, dict(kind="replay", msg=end, inputs=inp, stack=[]), code, end))
                            stop.set()
                        elif code == 0 and nt == tr:
                            counts["traces"] += 1
                        elif code != 5:
                            counts["mismatch"] += 1
                            notes.append("translation mismatch in %s: %s native %s %s symbolic %s inputs %s" % (j, code, end, nt, tr, ",".join(inp)[:300]))
            with lock:
                results.append((j, r))
                for m in r.get("reached", {}):
                    if "not located" in m and m not in notes:
                        notes.append(m)
            if st == "ok":
                return
            log("inconclusive:", j, str(r.get("inconclusive"))[:300])
        if job.confirm and not stop.is_set():
            # no sufficient condition was certified: look for the failure itself on the real code
            c = J.J(job.crate, job.confirm, *job.p)
            code, _, end = replay(c, [], 300)
            with lock:
                notes.append("%s not certified; %s on the real code: %s" % (job, c, end))
                if code in (3, 4):
                    viol.append((c, dict(kind="confirm", msg=end, inputs=[], stack=[]), code, end))
                    stop.set()

    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(one, j) for j in js]
        while not all(f.done() for f in fs):
            if stop.is_set():
                with live_lock:
                    for p in list(live):
                        kill(p)
            time.sleep(0.1)
        for f in fs:
            f.result()

    ok = {id(j): r for j, r in results if r["status"] == "ok"}
    undecided, reduced = [], []
    for j in js:
        if id(j) in ok:
            continue
        alt = [a for a in j.alt if id(a) in ok]
        if alt:
            reduced.append("%s decided only as %s" % (j, alt[0]))
        elif j.optional:
            reduced.append("%s undecided" % j)
        else:
            undecided.append(str(j))
    evidence(prop, tier, spec, results, ok, counts, viol, reduced, undecided, notes)
    for k, v in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        j, v, code, end = viol[0]
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        json.dump(dict(property=prop, crate=j.crate, entry=j.entry, params=j.p, inputs=v["inputs"], message=v["msg"], native_exit=code, native_says=end, stack=v["stack"][:20],
                       run="%s %s %s %s" % (NATIVE, j.entry, ",".join(map(str, j.p)) or "-", ",".join(v["inputs"]) or "-")), open(path, "w"), indent=1)
        log("violated by", j, ":", v["msg"], "/ native:", end)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        sys.exit(1)
    for n in notes[:5]:
        log(n)
    if counts["mismatch"]:
        die("the symbolic translation disagrees with the native code")
    if undecided:
        die("undecided: %s" % undecided)
    log("%s held: %d jobs, %d validated traces%s" % (prop, len(ok), counts["traces"], "; reduced: %s" % reduced if reduced else ""))


def evidence(prop, tier, spec, results, ok, counts, viol, reduced, undecided, notes):
    done = [r for j, r in results if id(j) in ok]

    def tot(k, sub=None):
        return sum((r.get(sub, {}) if sub else r).get(k, 0) for r in done)

    funcs = sorted({f for r in done for f in r.get("functions", []) if "jester_" in f})
    lib = sorted({f for r in done for f in r.get("functions", []) if "jester_" not in f})
    samples = []
    for j, r in [x for x in results if id(x[0]) in ok][:6]:
        s = dict(job=str(j), paths=r["paths"], obligations=r["obligations"], queries=r["solver"]["queries"], solver_ms=r["solver"]["time_ms"])
        if r.get("traces"):
            s["path_model"] = dict(inputs=r["traces"][0][0][:64], trace=r["traces"][0][1][:64])
        samples.append(s)
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(
            states=tot("paths") + tot("panic_paths"), transitions=tot("steps"), traces_validated_against_impl=counts["traces"], samples=samples,
            meaning="states: symbolic paths completed, each standing for every input that takes it; transitions: IR instructions executed symbolically; traces: path models replayed natively with equal observations",
            jobs=len(done), paths=tot("paths"), panic_paths=tot("panic_paths"), pruned_paths=tot("pruned"), forks=tot("forks"),
            assertions=tot("asserts"), obligations=tot("obligations"),
            solver=dict(queries=tot("queries", "solver"), sat=tot("sat", "solver"), unsat=tot("unsat", "solver"), unknown=tot("unknown", "solver"),
                        time_s=round(tot("time_ms", "solver") / 1000, 2), longest_s=round(max([r["solver"]["max_ms"] for r in done] or [0]) / 1000, 2)),
            sweep=dict(lemmas=tot("lemmas", "sweep"), merged=tot("merged", "sweep")),
            functions_encoded=funcs, library_functions_encoded=len(lib), bounds=spec["bounds"], outside=spec["outside"],
            job_list=[dict(job=str(j), status=r["status"], paths=r.get("paths"), wall_ms=r.get("wall_ms"), queries=r.get("solver", {}).get("queries")) for j, r in results],
            reduced=reduced, undecided=undecided, notes=notes[:10]),
        assumptions=spec["assumptions"], wall_s=round(time.time() - T0, 1), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
