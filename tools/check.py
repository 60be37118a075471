#!/usr/bin/env python3
"""Decides one property: builds the harnesses from /repo's working tree, runs
them under the monitors, collects violations, writes evidence.

exit 0: held on everything explored (known findings are listed)
exit 1: "VIOLATION property=<id> replay=<path>"
exit 2: the check could not be carried out (build or launch failure)
"""
import argparse, fnmatch, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild
from props import PROPS

VERIF = vbuild.VERIF
RUNS = os.path.join(vbuild.BUILD, "runs")
REPLAY = os.path.join(vbuild.BUILD, "replay")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NCORE = os.cpu_count() or 8
STALL = 150         # seconds without progress in one case
DEADLINE = 780      # seconds for all runs of a quick check
T0 = time.time()


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def environment(flavour, out):
    e = {k: v for k, v in os.environ.items() if not k.startswith("NESO_PARTICLES_")}
    e.update({
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
        "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_plm_rsh_agent": "/bin/false",
        "OMPI_MCA_orte_tmpdir_base": out, "OMP_NUM_THREADS": "1",
        "OMPI_MCA_shmem_mmap_enable_nfs_warning": "0",
        "PMIX_MCA_gds": "hash", "OMPI_MCA_io": "romio321", "OMPI_MCA_topo": "basic",
        "HWLOC_COMPONENTS": "-gl", "TMPDIR": out, "HDF5_USE_FILE_LOCKING": "FALSE",
        "ASAN_OPTIONS": f"detect_leaks=0:exitcode=78:log_path={out}/san:handle_abort=1:"
                        "detect_stack_use_after_return=0:allocator_may_return_null=0",
        "UBSAN_OPTIONS": f"halt_on_error=1:print_stacktrace=1:exitcode=78:log_path={out}/san",
        "TSAN_OPTIONS": f"halt_on_error=1:exitcode=78:log_path={out}/san:history_size=4:"
                        f"second_deadlock_stack=1:suppressions={VERIF}/tools/tsan.supp",
        "PETSC_OPTIONS": "-no_signal_handler",
    })
    return e


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):(\d+)")
FRAME2 = re.compile(r"#\d+ (.*?) (/\S+?):(\d+)")


def short_func(f):
    f = re.sub(r"\(.*", "", f)
    for _ in range(6):
        f = re.sub(r"<[^<>]*>", "", f)
    f = f.split(" ")[-1]
    return "::".join(f.split("::")[-2:])


def parse_san(path):
    txt = open(path, errors="replace").read()
    if "SUMMARY" not in txt and "ERROR" not in txt and "runtime error" not in txt:
        return None
    kind = "error"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", txt)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: (.*)", txt)
    if not m and m2:
        kind = "ub-" + re.sub(r"[^a-z ]", "", re.sub(r"-?\d\S*", "", m2.group(1).lower())).strip().replace(" ", "-")[:40]
    m3 = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", txt)
    if m3:
        kind = "tsan-" + m3.group(1).replace(" ", "-")
    where = "?"
    best = None
    for fm in list(FRAME.finditer(txt)) + list(FRAME2.finditer(txt)):
        if fm.group(2).startswith(vbuild.REPO + "/"):
            best = (fm.group(2)[len(vbuild.REPO) + 1:], short_func(fm.group(1)))
            break
    if best is None and m2:
        m4 = re.search(r"(/\S+?):\d+:\d+: runtime error", txt)
        if m4 and m4.group(1).startswith(vbuild.REPO):
            best = (m4.group(1)[len(vbuild.REPO) + 1:], "")
    if best:
        where = best[0] + ":" + best[1]
    return {"key": f"san:{kind}:{where}".replace(" ", ""), "msg": txt[:3500]}


class Shard:
    """One process (or one mpirun) working through a range of cases."""
    layout = 0

    def __init__(self, run, binary, first, cases, out, seed, thorough):
        self.run, self.binary, self.first, self.cases = run, binary, first, cases
        self.out, self.seed, self.thorough = out, seed, thorough

    def cmd(self, first, cases):
        n = self.run.get("ranks", 1)
        c = []
        if n > 1:
            # how the ranks of the run relate to those of MPI_COMM_WORLD: equal,
            # permuted, or permuted with one further process outside
            c = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(n + (self.layout == 2))]
        c += [self.binary, "--seed", str(self.seed), "--first", str(first), "--cases", str(cases),
              "--out", self.out]
        if self.run.get("only"):
            c += ["--only", self.run["only"]]
        if n > 1 and self.layout:
            c += ["--permute"] + (["--idle"] if self.layout == 2 else [])
        if self.thorough:
            c += ["--thorough"]
        return c + list(self.run.get("args", []))

    def progress(self):
        """last case started on any rank"""
        last = None
        for p in glob.glob(self.out + "/progress.*"):
            try:
                l = open(p).read().strip().splitlines()
                if l:
                    v = (int(l[-1].split()[0]), l[-1].split()[1])
                    last = v if last is None or v[0] < last[0] else last
            except Exception:
                pass
        return last

    def launch(self, first, cases, stall):
        """returns (status, returncode): status in ok, exit, stall, deadline"""
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        log = open(self.out + "/log", "w")
        env = environment(self.run.get("flavour", "asan"), self.out)
        env.update(self.run.get("env", {}))
        p = subprocess.Popen(self.cmd(first, cases), stdout=log, stderr=subprocess.STDOUT, cwd=self.out,
                             env=env, start_new_session=True, stdin=subprocess.DEVNULL)
        tlast, seen = time.time(), None
        while True:
            try:
                rc = p.wait(0.2)
                return "exit", rc
            except subprocess.TimeoutExpired:
                pass
            cur = self.progress()
            if cur != seen:
                seen, tlast = cur, time.time()
            now = time.time()
            dl = now - T0 > self.deadline
            if now - tlast > stall or dl:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
                p.wait()
                self.reap()
                return ("deadline" if dl else "stall"), None

    def reap(self):
        # mpirun's children live in their own sessions
        subprocess.run(["pkill", "-9", "-f", "--", "--out " + self.out + "( |$)"],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def collect(self, res):
        for f in glob.glob(self.out + "/viol.*.jsonl"):
            for l in open(f, errors="replace"):
                try:
                    v = json.loads(l)
                    res["violations"].append(v)
                except Exception:
                    pass
        for f in sorted(glob.glob(self.out + "/san*")):
            v = parse_san(f)
            if v:
                pr = self.progress()
                v["case"] = pr[0] if pr else -1
                v["scenario"] = pr[1] if pr else ""
                res["violations"].append(v)
        for f in glob.glob(self.out + "/stats.*.json"):
            try:
                d = json.load(open(f))
            except Exception:
                continue
            rank0 = d["rank"] == 0
            for k, n in d["counters"].items():
                if k in ("cases", "nontrivial") or k.startswith("cases_"):
                    if rank0:
                        res["counters"][k] = res["counters"].get(k, 0) + n
                else:
                    res["counters"][k] = res["counters"].get(k, 0) + n
            for k, vs in d["sets"].items():
                if k == "nontrivial_cases":
                    res["nontrivial"].update(f"{self.run['name']}:{x}" for x in vs)
                else:
                    res["sets"].setdefault(k, set()).update(vs)
            if rank0:
                res["samples"] += d["samples"][:3]

    def go(self, known, pid):
        res = {"violations": [], "counters": {}, "sets": {}, "samples": [], "nontrivial": set(),
               "errors": [], "incomplete": 0}
        first, left = self.first, self.cases
        infra = silent = 0
        restarts = 0
        while left > 0:
            n0 = len(res["violations"])
            st, rc = self.launch(first, left, STALL)
            pr = self.progress()
            self.collect(res)
            if st == "deadline":
                res["incomplete"] += left
                break
            if st == "stall":
                case = pr[0] if pr else first
                if pr is None:
                    infra += 1
                    if infra > 2:
                        res["errors"].append("no start: " + self.tail())
                        break
                    continue
                # once more, alone, before calling it a hang
                st2, rc2 = self.launch(case, 1, STALL)
                if st2 == "stall":
                    res["violations"].append({"key": f"hang:{pr[1]}", "case": case, "scenario": pr[1],
                                              "msg": f"no progress for {STALL}s twice: " + self.tail()})
                else:
                    self.collect(res)
                left -= case + 1 - first
                first = case + 1
                restarts += 1
                if restarts > 20:
                    break
                continue
            if rc == 0:
                break
            new = res["violations"][n0:]
            if pr is None:
                infra += 1
                if infra > 2:
                    res["errors"].append(f"could not start (exit {rc}): " + self.tail())
                    break
                time.sleep(1)
                continue
            if rc == 3:
                res["errors"].append("harness usage error: " + self.tail())
                break
            done_all = os.path.exists(self.out + "/stats.0.json") and pr[0] == first + left - 1 and rc == 77
            crashed = not new
            if crashed:
                tail = self.tail()
                if re.search(r"There are not enough slots|unable to|ORTE was unable|No space left", tail) and infra < 2:
                    infra += 1
                    continue
                if rc == 1 and st == "exit" and silent < 2 and \
                        not re.search(r"MPI_ABORT|[Ss]ignal|PETSC ERROR|[Aa]ssert|rror", tail):
                    # mpirun ended with 1 and nobody said why: neither the library
                    # (MPI_Abort, abort) nor a sanitizer (77) ends like this. The
                    # cases are deterministic: again, and believe it if it persists.
                    silent += 1
                    res["counters"]["silent_restarts"] = res["counters"].get("silent_restarts", 0) + 1
                    continue
                sig = ""
                m = re.search(r"[Ss]ignal: ([A-Za-z ]+)\(|exited on signal (\d+)", tail)
                if rc is not None and rc < 0:
                    sig = f"signal{-rc}"
                elif m:
                    sig = "signal"
                res["violations"].append({"key": f"crash:{pr[1]}:{sig or 'exit%s' % rc}", "case": pr[0],
                                          "scenario": pr[1], "msg": "abnormal end: " + tail})
                new = res["violations"][n0:]
            # continue behind the case when every violation is a listed finding
            # or a matter of another property
            if done_all:
                break
            keys = re.compile(PROPS[pid].get("keys", ".*"))
            if all(not keys.search(v["key"]) or any(fnmatch.fnmatch(v["key"], k[1]) for k in known
                                                    if k[0] == pid or PROPS[pid].get("differential"))
                   for v in new):
                nxt = pr[0] + 1
                left -= nxt - first
                first = nxt
                restarts += 1
                if restarts > 200:
                    break
                continue
            break
        if not res["violations"] and not res["errors"]:
            shutil.rmtree(self.out, ignore_errors=True)
        return res

    def tail(self):
        try:
            t = open(self.out + "/log", errors="replace").read()
            return t[-2500:]
        except Exception:
            return ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    pid = a.prop
    P = PROPS[pid]
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    thorough = tier == "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    known = known_findings()
    os.makedirs(RUNS, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    runs = [dict(r) for r in P["runs"]]
    bins = {}
    try:
        for fl in sorted({r.get("flavour", "asan") for r in runs}):
            hs = sorted({r["harness"] for r in runs if r.get("flavour", "asan") == fl})
            b = vbuild.build(fl, hs)
            for h in hs:
                bins[(fl, h)] = b[h]
    except vbuild.BuildError as e:
        print("BUILD FAILURE\n" + str(e)[-6000:])
        print(f"CHECK-ERROR property={pid}: the monitored build failed, nothing was decided")
        sys.exit(2)
    global T0
    T0 = time.time()
    shards = []
    for i, r in enumerate(runs):
        r["name"] = f"{r['harness']}:{r.get('only', '*')}:n{r.get('ranks', 1)}:{r.get('flavour', 'asan')}"
        n = int((r["thorough"] if thorough else r["quick"]) * a.scale)
        n = max(n, 1)
        per = max(1, r.get("shard", 0) or -(-n // max(1, NCORE // max(1, r.get("ranks", 1)))))
        k = 0
        while k < n:
            m = min(per, n - k)
            out = os.path.join(RUNS, f"{pid}-{i}-{k}")
            s = Shard(r, bins[(r.get("flavour", "asan"), r["harness"])], k, m, out, seed + 1000003 * i, thorough)
            s.layout = (len(shards) + seed) % 3
            s.deadline = DEADLINE - (0) if not thorough else 36000
            shards.append(s)
            k += m
    # longest first, at most NCORE ranks at once
    sem = threading.BoundedSemaphore(NCORE)
    lock = threading.Lock()
    stop = threading.Event()

    def work(s):
        w = min(NCORE, s.run.get("ranks", 1))
        with lock:
            for _ in range(w):
                sem.acquire()
        try:
            if stop.is_set():
                return None
            return s.go(known, pid)
        finally:
            for _ in range(w):
                sem.release()

    tot = {"violations": [], "counters": {}, "sets": {}, "samples": [], "nontrivial": set(), "errors": [],
           "incomplete": 0}
    with ThreadPoolExecutor(len(shards)) as ex:
        futs = [(s, ex.submit(work, s)) for s in shards]
        for s, f in futs:
            r = f.result()
            if r is None:
                continue
            for v in r["violations"]:
                v["run"] = s.run["name"]
                v["shard"] = s
                v["cmd"] = s.cmd(max(0, v.get("case", 0)), 1)
                tot["violations"].append(v)
            for k, n in r["counters"].items():
                tot["counters"][k] = tot["counters"].get(k, 0) + n
            for k, vs in r["sets"].items():
                tot["sets"].setdefault(k, set()).update(vs)
            tot["samples"] += r["samples"][:2]
            tot["nontrivial"] |= r["nontrivial"]
            tot["errors"] += r["errors"]
            tot["incomplete"] += r["incomplete"]
    keys = re.compile(P.get("keys", ".*"))
    other = {}
    if P.get("differential"):
        # A failure belongs to the property when the same case passes once the
        # varied conditions are fixed to the plain ones.
        kept, judged = [], {}
        for v in tot["violations"]:
            s = v["shard"]
            c = (s.out, v.get("case", 0))
            if c not in judged and len(judged) < 12:
                run = dict(s.run, env=dict(s.run.get("env", {}), **{P["differential"]: "1"}))
                t = Shard(run, s.binary, c[1], 1, s.out + "-fixed", s.seed, s.thorough)
                t.layout = s.layout
                t.deadline = s.deadline + 100
                res = {"violations": [], "counters": {}, "sets": {}, "samples": [], "nontrivial": set()}
                st, rc = t.launch(max(0, c[1]), 1, STALL)
                t.collect(res)
                judged[c] = st == "exit" and rc == 0
            if judged.get(c):
                kept.append(v)
            else:
                other[v["key"]] = other.get(v["key"], 0) + 1
        tot["violations"] = kept
    found = {}
    listed = {}
    for v in tot["violations"]:
        k = v["key"]
        if not keys.search(k):
            other[k] = other.get(k, 0) + 1
            continue
        hit = [f for f in known if f[0] == pid and fnmatch.fnmatch(k, f[1])]
        if hit:
            listed.setdefault(hit[0], v)
        else:
            found.setdefault(k, v)
    for f in known:
        if f in listed:
            print(f"KNOWN-FINDING: property={pid} {f[1]} {f[2]}")
    cases = tot["counters"].get("cases", 0)
    wall = time.time() - T0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(cases), "distinct_nontrivial": len(tot["nontrivial"]),
            "rule": P["rule"],
            "samples": [s[:300] for s in tot["samples"]][:10] or ["none"],
            "observed": {k: v for k, v in sorted(tot["counters"].items())},
            "distinct": {k: len(v) for k, v in sorted(tot["sets"].items())},
            "runs": [s for s in sorted({s.run["name"] for s in shards})],
            "not_reached_before_deadline": tot["incomplete"],
            "known_findings_seen": [f[1] for f in listed],
            "violations_of_other_properties_seen": other,
        },
        "wall_s": round(wall, 2), "violations": len(found),
    }
    path = os.path.join(EVID, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    if found:
        for k, v in found.items():
            rp = os.path.join(REPLAY, f"{pid}-{hashlib.sha1(k.encode()).hexdigest()[:10]}.json")
            json.dump({"property": pid, "key": k, "seed": seed, "case": v.get("case"),
                       "scenario": v.get("scenario"), "command": v["cmd"], "message": v.get("msg", "")[:6000],
                       "desc": v.get("desc", ""), "note": v.get("note", ""), "rank": v.get("rank")},
                      open(rp, "w"), indent=1)
            print(f"  {k}: {v.get('msg', '')[:600]}")
            print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if tot["errors"]:
        print("\n".join(tot["errors"])[:4000])
        print(f"CHECK-ERROR property={pid}: a run could not be carried out")
        sys.exit(2)
    need = P.get("require", {})
    for k, n in dict({"cases": 1}, **need).items():
        got = len(tot["nontrivial"]) if k == "nontrivial" else tot["counters"].get(k, 0)
        if got < n:
            print(f"CHECK-ERROR property={pid}: the monitors observed too little: {k}={got} < {n}")
            sys.exit(2)
    print(f"property={pid} held: {cases} cases, {len(tot['nontrivial'])} non-trivial, "
          f"{tot['counters'].get('oracle_checks', 0)} oracle checks, {wall:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
