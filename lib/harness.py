"""Runs one property's check: seeded cases over worker processes, violation
gating (same seed twice, fresh-process replay), minimisation, evidence.

A check is an object with
  id, level, rule (text)
  prepare()                 builds what it needs from the current tree
  make(choices, tier)       -> case: plain data, everything the run depends on
                               (raises Discard for a draw that gives no case)
  run(case)                 -> Outcome
The verdict on a case depends on the case and the code under test only.
"""
import collections, hashlib, json, multiprocessing, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
import build, shrink
from gen import Choices

VERIF = build.VERIF
_tmp = None


def scratch():
    """A scratch directory of this process, removed when it ends."""
    global _tmp
    if _tmp is None or _tmp[0] != os.getpid():
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and os.environ.get("VERIF_SHM", "0") == "1" else None
        _tmp = (os.getpid(), tempfile.mkdtemp(prefix="vpnut-", dir=base))
    return _tmp[1]


def cleanup():
    global _tmp
    if _tmp is not None and _tmp[0] == os.getpid():
        shutil.rmtree(_tmp[1], ignore_errors=True)
        _tmp = None


class Discard(Exception):
    pass


class Outcome:
    __slots__ = ("viol", "sig", "nontrivial", "counts", "steps", "desc")

    def __init__(self, viol=None, sig="", nontrivial=True, counts=None, steps=0, desc=""):
        self.viol, self.sig, self.nontrivial, self.counts, self.steps, self.desc = viol, sig, nontrivial, counts or {}, steps, desc


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"__b__": bytes(x).decode("latin1")}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if set(x) == {"__b__"}:
            return x["__b__"].encode("latin1")
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def digest(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:16]


def case_seed(vseed, pid, i):
    return "%s:%s:%d" % (vseed, pid, i)


def one(check, vseed, i, tier):
    c = Choices(case_seed(vseed, check.id, i))
    case = check.make(c, tier)
    return c, case, check.run(dec(enc(case)))


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def worker(check, w, nw, vseed, tier, deadline, maxcases, stop, q):
    limits()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    counts, sigs, samples, n, steps, errs, slow = collections.Counter(), set(), [], 0, 0, [], 0.0
    i = w
    nontriv = 0
    try:
        check.start_worker()
        while not stop.is_set() and time.monotonic() < deadline and i < maxcases:
            t0 = time.monotonic()
            try:
                c, case, out = one(check, vseed, i, tier)
            except Discard as e:
                counts["discarded: " + str(e)] += 1
                i += nw
                continue
            except Exception:
                errs.append("case %d: %s" % (i, traceback.format_exc()[-1500:]))
                counts["harness errors"] += 1
                i += nw
                if len(errs) > 20:
                    break
                continue
            slow = max(slow, time.monotonic() - t0)
            n += 1
            steps += out.steps
            counts.update(out.counts)
            if out.nontrivial:
                nontriv += 1
                sigs.add(digest(out.sig))
            if len(samples) < 2:
                samples.append({"seed": case_seed(vseed, check.id, i), "case": out.desc[:1500]})
            if out.viol:
                q.put(("viol", i, out.viol))
                break
            i += nw
    except BaseException:
        errs.append(traceback.format_exc()[-2000:])
    finally:
        cleanup()
        q.put(("done", w, n, nontriv, steps, dict(counts), sigs, samples, errs, slow))


def confirm(check, vseed, i, tier, q):
    limits()
    try:
        check.start_worker()
        c, case, out = one(check, vseed, i, tier)
        q.put((out.viol, list(c.rec), enc(case)))
    except BaseException:
        q.put((None, None, traceback.format_exc()[-1500:]))
    finally:
        cleanup()


def in_child(fn, *args):
    q = multiprocessing.Queue()
    p = multiprocessing.Process(target=fn, args=args + (q,))
    p.start()
    r = q.get()
    p.join()
    return r


def replay_main(check, path):
    d = json.load(open(path))
    check.prepare()
    check.start_worker()
    try:
        out = check.run(dec(d["case"]))
    finally:
        cleanup()
    if out.viol:
        print("replayed: %s: %s" % tuple(out.viol))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    print("replayed: the property held on this case")
    return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--replay" in argv:
        return replay_main(check, argv[argv.index("--replay") + 1])
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", check.budget if tier == "quick" else check.budget_thorough))
    nw = int(os.environ.get("VERIF_WORKERS", "8"))
    maxcases = int(os.environ.get("VERIF_CASES", "1000000000"))
    t0 = time.monotonic()
    try:
        check.prepare()
    except build.BuildError as e:
        print("cannot build pnut: %s" % e)
        return 2
    # known findings first
    known = [k for k in load_known()["findings"] if k["property"] == check.id]
    for k in known:
        out = in_child(lambda q, k=k: q.put(check.run(dec(json.load(open(os.path.join(VERIF, k["replay"])))["case"])).viol))
        if out:
            print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
    check.known = known
    # fixed cases: small systematic sweeps a check wants in every run
    q = multiprocessing.Queue()
    stop = multiprocessing.Event()
    tb = time.monotonic()
    deadline = tb + budget
    ps = [multiprocessing.Process(target=worker, args=(check, w, nw, vseed, tier, deadline, maxcases, stop, q)) for w in range(nw)]
    for p in ps:
        p.start()
    counts, sigs, samples, n, nontriv, steps, errs, viols, done, slow = collections.Counter(), set(), [], 0, 0, 0, [], [], 0, 0.0
    while done < nw:
        try:
            m = q.get(timeout=5)
        except Exception:
            dead = [p for p in ps if not p.is_alive() and p.exitcode not in (0, None)]
            if len(dead) and sum(p.is_alive() for p in ps) + done < nw:
                errs.append("worker died: %s" % [p.exitcode for p in dead])
                stop.set()
                break
            continue
        if m[0] == "viol":
            viols.append(m[1:])
            stop.set()
        else:
            _, w, n1, nt, st, cs, sg, sm, er, sl = m
            done += 1
            n += n1
            nontriv += nt
            steps += st
            counts.update(cs)
            sigs |= sg
            samples += sm
            errs += er
            slow = max(slow, sl)
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    wall_runs = time.monotonic() - tb
    rc, report, unrepro = 0, None, []
    for i, viol in sorted(viols, key=lambda v: v[0])[:4]:
        a = in_child(confirm, check, vseed, i, tier)
        b = in_child(confirm, check, vseed, i, tier)
        if a[0] is None or a != b or list(a[0]) != list(viol):
            unrepro.append("case %d: %s / %s / %s" % (i, viol, a[0], b[0]))
            continue
        report = minimise(check, tier, a, case_seed(vseed, check.id, i))
        path = report["path"]
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check.id, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 1:
            unrepro.append("case %d: fresh-process replay ended %d: %s" % (i, p.returncode, p.stdout.decode("latin1")[-500:]))
            report = None
            continue
        print("%s: %s" % tuple(report["viol"]))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        rc = 1
        break
    if rc == 0 and (unrepro or errs and n < 20 * len(errs)):
        rc = 2
    if errs:
        sys.stderr.write("\n".join(errs[:3]) + "\n")
    if unrepro:
        sys.stderr.write("\n".join(unrepro) + "\n")
    faults = {k[7:]: v for k, v in sorted(counts.items()) if k.startswith("fault: ")}
    probes = {k[7:]: v for k, v in sorted(counts.items()) if k.startswith("probe: ")}
    other = {k: v for k, v in sorted(counts.items()) if not k.startswith(("fault: ", "probe: "))}
    cov = {"evaluations": n, "distinct_nontrivial": len(sigs), "rule": check.rule, "samples": samples[:4] or [{"note": "no case ran"}],
           "seeds_per_hour": int(n * 3600 / max(wall_runs, 0.1)), "simulated_steps": steps, "simulated_time": check.simtime,
           "faults_injected": faults, "probes": probes, "counters": other, "distinct_by": check.distinct_by,
           "components": check.components, "slowest_case_s": round(slow, 2), "harness_errors": len(errs)}
    ev = {"property": check.id, "tier": tier, "seed": vseed, "level": check.level, "coverage": cov, "assumptions": check.assumptions,
          "wall_s": round(time.monotonic() - t0, 2), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct, %d steps, %.0f s, %d harness errors%s" % (check.id, n, len(sigs), steps, time.monotonic() - t0, len(errs), "" if rc != 2 else " -- no verdict"))
    return rc


def minimise(check, tier, conf, seed):
    viol, rec, case = conf
    check.start_worker()

    def attempt(rec):
        try:
            c = Choices(replay=list(rec))
            case = check.make(c, tier)
            out = check.run(dec(enc(case)))
            return out.viol, case
        except Exception:
            return None, None

    def bad(r):
        v = attempt(r)[0]
        return v is not None and v[0] == viol[0]
    path = os.path.join(VERIF, "replays")
    os.makedirs(path, exist_ok=True)
    best = (viol, case, rec)
    if bad(rec):
        r = shrink.shrink(rec, bad, check.shrink_s)
        v, cs = attempt(r)
        if v is not None and v[0] == viol[0]:
            best = (v, enc(cs), r)
    v, cs, r = best
    if isinstance(cs, dict) and cs.get("plan"):
        # then the fault plan on its own
        def badp(pl):
            try:
                o = check.replan(dec(cs), pl)
                return o is not None and o[0] is not None and o[0][0] == v[0]
            except Exception:
                return False
        if hasattr(check, "replan"):
            pl = shrink.shrink_list(cs["plan"], badp, 5)
            o = check.replan(dec(cs), pl) if pl != cs["plan"] else None
            if o is not None and o[0] is not None:
                v, cs = o[0], enc(o[1])
    cleanup()
    f = os.path.join(path, "%s-%s.json" % (check.id, digest(v, cs)))
    with open(f, "w") as fh:
        json.dump({"property": check.id, "seed": seed, "violation": list(v), "choices": r, "case": cs}, fh, indent=1)
    return {"path": f, "viol": v}


class Check:
    level = "exploration"
    budget, budget_thorough, shrink_s = 50, 1800, 25
    simtime = ""
    distinct_by = ""
    rule = ""
    components = {}
    assumptions = []
    known = ()

    def prepare(self):
        pass

    def start_worker(self):
        pass
