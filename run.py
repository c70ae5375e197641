#!/usr/bin/env python3
"""Decide one property: run.py ID [quick|thorough]   (see DESIGN.md)

exit 0: held on everything explored   exit 1: VIOLATION line   exit 2: no answer (build or tool failure)
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks

B = os.environ.get("KX_BUILD", os.path.join(V, "build"))
CPUS = max(1, len(os.sched_getaffinity(0)))


def die(msg):
    print("check error:", msg)
    sys.stdout.flush()
    os._exit(2)


def src_hash():
    h = hashlib.sha256()
    for root in ["/repo/src", os.path.join(V, "harness"), os.path.join(V, "shim"), os.path.join(V, "native")]:
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(open("/repo/Cargo.toml", "rb").read())
    return h.hexdigest()


def sh(step):
    t = time.time()
    r = subprocess.run([os.path.join(V, "tools/build.sh"), step], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, KX_BUILD=B))
    return step, r.returncode, r.stdout, time.time() - t


def build():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = src_hash()
    stamp = os.path.join(B, "src.hash")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        # never trust modification times across changes of the tree
        for t in ["ir", "native"]:
            for prof in ["release", "debug"]:
                fp = os.path.join(B, t, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith(("kiss_xml-", "hx-", "nx-", "regex-")):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    times = {}
    steps = ["engine", "ir", "native"]
    with ThreadPoolExecutor(3) as ex:
        for step, rc, out, dt in ex.map(sh, steps):
            times[step] = round(dt, 1)
            if rc != 0:
                print("\n".join(out.splitlines()[-60:]))
                die(f"building '{step}' failed")
    open(stamp, "w").write(h)
    return lock, times


NX = lambda: os.path.join(B, "native/release/nx")


def native(harness, lines, timeout, verbose=False):
    """run recorded inputs against the real crate; one (status, emitted, notes) per line"""
    env = dict(os.environ)
    env.pop("RUST_BACKTRACE", None)
    if verbose:
        env["NX_VERBOSE"] = "1"
    scratch = os.path.join(B, f"scratch-{os.getpid()}-{id(lines)}")
    os.makedirs(scratch, exist_ok=True)
    env["KX_SCRATCH"] = scratch
    try:
        cmd = ["bash", "-c", 'ulimit -v 6000000; ulimit -c 0; exec "$0" "$@"', NX(), harness]
        try:
            p = subprocess.run(cmd, input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env, cwd=scratch)
            out, rc, to = p.stdout, p.returncode, False
        except subprocess.TimeoutExpired as e:
            out, rc, to = (e.stdout or b"").decode(errors="replace"), -1, True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res = []
    for l in out.splitlines():
        if l.startswith("# "):
            if res:
                res[-1][2].append(l[2:])
            continue
        a = l.split("\t")
        res.append([a[0], a[1] if len(a) > 1 else "", []])
    if len(res) < len(lines):
        res.append(["timeout" if to else f"crash:exit status {rc}", "", []])
    return res


def bad(status):
    return status.startswith(("fail:", "panic:", "crash:", "timeout"))


def kind_of(status):
    return status.split(":")[0]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if pid == "setup":
        lock, btimes = build()
        print("built", btimes)
        return
    c = checks.CHECKS[pid]
    lock, btimes = build()
    fcntl.flock(lock, fcntl.LOCK_UN)
    hs = c[tier] if tier in c and c[tier] else c["quick"]
    budget = c.get("budget", {}).get(tier, 150 if tier == "quick" else 3000)
    outf = os.path.join(B, f"sym-{pid}-{os.getpid()}.json")
    cmd = [os.path.join(B, "engine/release/symex"), "--ll", os.path.join(B, "hx.ll"), "--harness", ",".join(hs), "--time", str(budget), "--share", "1",
           "--threads", str(CPUS), "--out", outf, "--max-steps", str(c.get("max_steps", 200_000_000)), "--max-samples", "1500" if tier == "quick" else "4000"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    sys.stderr.write(p.stderr)
    if p.returncode != 0 or not os.path.exists(outf):
        die(f"the symbolic executor ended with {p.returncode}")
    res = json.load(open(outf))
    os.unlink(outf)
    sym_s = time.time() - t0

    violations, problems, notes = [], [], []
    validated = 0
    tot = dict(paths=0, ok=0, assume_cut=0, branch_edges=0, choice_edges=0, conc_edges=0, steps=0, queries=0, queries_cached=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    funcs, samples, per, covers = set(), [], [], {}
    exhaustive = True
    jobs = []
    for h in res["harnesses"]:
        for k in tot:
            tot[k] += h[k]
        funcs.update(h["functions"])
        exhaustive &= h["exhausted"]
        n = h["name"]
        for k, v in h["covers"].items():
            covers[f"{n}:{k}"] = v
        per.append({k: h[k] for k in ["name", "exhausted", "wall_s", "paths", "ok", "assume_cut", "branch_edges", "choice_edges", "queries", "queries_cached", "unsat", "unknown", "solver_s", "solver_max_s", "max_inputs", "max_events", "functions_total", "errors"]})
        # counterexamples: each is replayed alone
        for f in h["failures"]:
            jobs.append(("cex", n, [f["inputs"]], f))
        ei = h["error_inputs"]
        if ei:
            ei = ei[:400]
            for i in range(0, len(ei), 25):
                jobs.append(("err", n, ei[i:i + 25], None))
        # translation validation on recorded paths
        want = (c.get("validate", 400) if tier == "quick" else 2000) // max(1, len(res["harnesses"])) + 30
        S = [s for s in h["samples"] if s[0] in ("ok", "assume")]
        S = S[:: max(1, len(S) // want)][: want + 5]
        chunk = max(4, len(S) // (2 * CPUS) + 1)
        for i in range(0, len(S), chunk):
            jobs.append(("val", n, [s[1] for s in S[i:i + chunk]], S[i:i + chunk]))
        oks = [s for s in h["samples"] if s[0] == "ok"]
        for s in oks[:: max(1, len(oks) // 2)][:2]:
            samples.append({"harness": n, "inputs": s[1], "status": s[0]})

    def run_job(j):
        kind, n, lines, _ = j
        if kind == "cex":
            return native(n, lines, 60, verbose=True)
        out, i = [], 0
        while i < len(lines):
            r = native(n, lines[i:], 120)
            out += r
            i += max(1, len(r))
        return out

    with ThreadPoolExecutor(CPUS) as ex:
        done = list(ex.map(run_job, jobs))
    for (kind, n, lines, extra), r in zip(jobs, done):
        if kind == "cex":
            st = r[0][0]
            if bad(st):
                violations.append((n, lines[0], st, extra["msg"], r[0][2]))
            else:
                problems.append(f"{n}: counterexample ({extra['kind']}: {extra['msg']}) inputs={lines[0]} does not reproduce on the real code: {st}")
        elif kind == "err":
            for l, x in zip(lines, r):
                if bad(x[0]):
                    violations.append((n, l, x[0], "path the executor could not finish", x[2]))
        else:
            for s, x in zip(extra, r):
                validated += 1
                if s[0] == "ok" and bad(x[0]):
                    violations.append((n, s[1], x[0], "recorded path fails on the real code", x[2]))
                elif kind_of(x[0]) != kind_of(s[0]) or (s[0] == "ok" and x[1] != s[2]):
                    problems.append(f"{n}: path inputs={s[1]} symbolic {s[0]}/{s[2][:200]} native {x[0]}/{x[1][:200]}")
    for h in res["harnesses"]:
        need = c.get("covers", {}).get(h["name"], [1])
        for k in need:
            if h["exhausted"] and not h["failures"] and str(k) not in h["covers"]:
                problems.append(f"{h['name']}: vacuous, point {k} was never reached")
        if h["ok"] == 0 and not h["failures"]:
            problems.append(f"{h['name']}: no path ended normally (errors: {list(h['errors'])[:3]})")
        if not h["exhausted"]:
            notes.append(f"{h['name']}: not exhausted (paths={h['paths']}, unknown={h['unknown']}, errors={list(h['errors'].items())[:4]})")

    # known findings: each is one specific input
    kf_path = os.path.join(V, "known_findings.json")
    kf = json.load(open(kf_path)) if os.path.exists(kf_path) else {"known": []}
    kfs = 0
    for k in kf.get("known", []):
        if k["property"] != pid:
            continue
        r = native(k["harness"], [k["inputs"]], 60)
        if bad(r[0][0]):
            kfs += 1
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["sat"] + tot["unsat"], "traces_validated_against_impl": validated, "exhaustive": bool(exhaustive),
            "samples": samples[:20] or [{"harness": hs[0], "inputs": "", "status": "none"}],
            "explanation": "states = paths of the compiled code explored symbolically (each stands for every input that satisfies its path condition); transitions = branch alternatives decided by an SMT query; traces_validated_against_impl = recorded paths re-run against the native build with equal status and output",
            "paths_completed": tot["ok"], "paths_outside_assumptions": tot["assume_cut"],
            "branch_alternatives_decided": tot["branch_edges"], "structural_choices": tot["choice_edges"], "symbolic_addresses_or_lengths": tot["conc_edges"],
            "queries": tot["queries"], "queries_answered_from_cache": tot["queries_cached"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
            "solver": "z3 " + res["z3"], "solver_s": round(tot["solver_s"], 2), "instructions_executed": tot["steps"], "harnesses": per,
            "reach_points": covers, "bounds": c["bounds"], "functions_encoded_of_kiss_xml": len(funcs), "functions": sorted(funcs)[:400],
            "build_s": btimes, "notes": notes, "problems": problems[:20],
        },
        "assumptions": checks.COMMON_ASSUMPTIONS + c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations), "known_findings": kfs,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rp = os.path.join(V, "evidence", f"{pid}.replay.txt")
    if violations:
        with open(rp, "w") as f:
            for n, l, st, msg, nt in violations:
                f.write(f"property {pid}\nharness {n}\ninputs {l}\nsolver: {msg}\nreal code: {st}\n")
                for x in nt:
                    f.write(f"   | {x}\n")
                f.write(f"replay: echo '{l}' | NX_VERBOSE=1 {NX()} {n}\n\n")
    elif os.path.exists(rp):
        os.unlink(rp)
    tmp = os.path.join(V, "evidence", f".{pid}.{os.getpid()}")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", f"{pid}.json"))
    for n in notes:
        print("note:", n)
    print(f"{pid} {tier}: paths={tot['paths']} decided={tot['sat'] + tot['unsat']} (+{tot['queries_cached']} cached) solver={tot['solver_s']:.1f}s validated={validated} exhaustive={exhaustive} build={btimes} sym={sym_s:.0f}s wall={ev['wall_s']:.0f}s")
    if violations:
        for n, l, st, msg, nt in violations[:8]:
            print(f"  {n}: {st}  inputs={l}")
            for x in nt[:4]:
                print("     |", x[:300])
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if problems:
        for x in problems[:12]:
            print("problem:", x)
        die("the result cannot be trusted")
    sys.exit(0)


if __name__ == "__main__":
    main()
