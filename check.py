#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py PROP [--tier quick|thorough] [--seed N] [--runs N] [--secs S]
  check.py --replay FILE        run one recorded scenario; exit 1 when it violates its property

Builds the simulator from /repo's working tree, runs seeded scenarios on all cores, confirms and minimises what
they violate, writes /verif/evidence/PROP.json.
"""
import argparse, collections, glob, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder  # noqa: E402
from plan import PLAN  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
STATUS = {0: "ok", 1: "violation", 2: "discard", 3: "crash", 4: "hang"}
BAD = (1, 3, 4)


class Rep:
    """One report line of the simulator."""

    def __init__(self, line):
        head, cnt, msg = (line.rstrip("\n").split("\t") + ["", ""])[:3]
        _, seed, st, cls, trace, h = head.split(" ")
        self.seed, self.status, self.cls, self.trace, self.hash, self.msg = int(seed), int(st), cls, trace, h, msg
        self.counters = {}
        for kv in cnt.split(";"):
            if "=" in kv:
                k, v = kv.rsplit("=", 1)
                self.counters[k] = int(v)


def scenario_text(exe, prop, tier, seed):
    return subprocess.run([exe, "gen", prop, str(tier), str(seed)], stdout=subprocess.PIPE, text=True).stdout


def replay(exe, path):
    out = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
    for l in out.splitlines():
        if l.startswith("R "):
            return Rep(l)
    return None


class Text:
    def __init__(self, t):
        self.head, self.cfg, self.ops, self.faults = [], [], [], []
        for l in t.splitlines():
            (self.cfg if l.startswith("cfg ") else self.ops if l.startswith("op ") else self.faults if l.startswith("fault ") else self.head).append(l)

    def text(self):
        return "\n".join(self.head + self.cfg + self.ops + self.faults) + "\n"


KEEP = re.compile(r"^cfg (\w_)?(pk|sv|inst|x0|n|p|m|q|r|l|num|pset|pset2|nt|single|hhr|c\d\w|kind|mode|tasks|var)\b")


def minimise(exe, text, rep, secs, scratch):
    """Drops faults, operations and settings while the same class of violation remains."""
    end = time.time() + secs
    proc = subprocess.Popen([exe, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", bufsize=1)
    fn = os.path.join(scratch, "min.txt")
    tries = [0]

    def same(t):
        if time.time() > end:
            return False
        with open(fn, "w") as f:
            f.write(t.text())
        tries[0] += 1
        try:
            proc.stdin.write(fn + "\n")
            proc.stdin.flush()
            r = Rep(proc.stdout.readline())
        except Exception:
            return False
        return r.status == rep.status and r.cls == rep.cls

    best = Text(text)
    if not same(best):
        proc.kill()
        return text, tries[0]

    def drop(attr):
        lst = getattr(best, attr)
        size = max(1, len(lst) // 2)
        while size >= 1:
            i = 0
            while i < len(getattr(best, attr)):
                cur = getattr(best, attr)
                cand = Text(best.text())
                setattr(cand, attr, cur[:i] + cur[i + size:])
                if len(getattr(cand, attr)) < len(cur) and same(cand):
                    setattr(best, attr, getattr(cand, attr))
                else:
                    i += size
                if time.time() > end:
                    return
            size //= 2

    drop("faults")
    drop("ops")
    i = 0
    while i < len(best.cfg) and time.time() < end:
        if not KEEP.match(best.cfg[i]):
            cand = Text(best.text())
            del cand.cfg[i]
            if same(cand):
                best = cand
                continue
        i += 1
    drop("ops")
    # shorten the run and the fault positions
    for attr in ("cfg", "faults"):
        for i in range(len(getattr(best, attr))):
            w = getattr(best, attr)[i].split()
            idx = [2] if attr == "cfg" and w[1] in ("maxit", "steps", "n", "p", "m") else list(range(2, len(w))) if attr == "faults" else []
            for j in idx:
                for _ in range(12):
                    v = int(w[j])
                    done = True
                    for nv in (v // 2, v - 1):
                        if nv < 1 or nv == v:
                            continue
                        cand = Text(best.text())
                        w2 = list(w)
                        w2[j] = str(nv)
                        getattr(cand, attr)[i] = " ".join(w2)
                        if same(cand):
                            best, w, done = cand, w2, False
                            break
                    if done:
                        break
    proc.stdin.close()
    proc.kill()
    return best.text(), tries[0]


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) class=(\S+) scenario=(\S+) (.*)", l)
            if m:
                known.append(m.groups())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--flavour")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        exe = builder.build(a.flavour or "sim")
        r = replay(exe, a.replay)
        if r is None:
            print("no report")
            return 2
        print("%s %s trace %s: %s" % (STATUS[r.status], r.cls, r.trace, r.msg))
        return 1 if r.status in BAD else 0

    prop, plan = a.prop, PLAN[a.prop]
    tp = plan[a.tier]
    exe = builder.build("sim")
    t_build = time.time() - t0
    tier = 1 if a.tier == "thorough" else 0
    runs, secs = a.runs or tp["runs"], a.secs or tp["secs"]
    first = 1 + (a.seed % 1000003) * 10000000
    scratch = os.path.join(VERIF, "build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)

    reps, lock, dead = [], threading.Lock(), []

    def worker(flav_exe, w, n_total, lim, base):
        n = (n_total - w + JOBS - 1) // JOBS
        if n <= 0:
            return
        p = subprocess.Popen([flav_exe, "run", prop, str(tier), str(base + w), str(n), str(JOBS), str(lim)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        done = False
        for l in p.stdout:
            if l.startswith("R "):
                with lock:
                    reps.append(Rep(l))
            elif l.startswith("DONE"):
                done = True
        p.wait()
        if not done:
            dead.append(w)

    t_run = time.time()
    corpus = []  # committed scenarios: earlier findings and hard cases
    for f in sorted(glob.glob(os.path.join(VERIF, "corpus", prop, "*.txt"))):
        r = replay(exe, f)
        if r:
            r.file = f
            corpus.append(r)

    def sweep(flav_exe, total, lim, base):
        ths = [threading.Thread(target=worker, args=(flav_exe, w, total, lim, base)) for w in range(JOBS)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    sweep(exe, runs, secs, first)
    n_main = len(reps)
    # a part of the seeds again under AddressSanitizer and UBSan
    asan_runs = 0
    if tp.get("asan"):
        try:
            aexe = builder.build("asan")
            before = len(reps)
            main_reps = list(reps)
            sweep(aexe, tp["asan"], tp.get("asan_secs", 60), first + 5000000)
            for r in reps[before:]:
                r.asan = True
            asan_runs = len(reps) - before
        except SystemExit:
            print("note: the sanitizer build failed; skipped")
    wall_run = time.time() - t_run
    if dead or (n_main == 0):
        print("ERROR: %d simulator processes ended early" % len(dead))
        return 2

    # determinism: the same seeds again in another process with another environment
    sample = sorted(r.seed for r in reps if not hasattr(r, "asan"))[:: max(1, n_main // tp.get("redo", 24))]
    det_bad = []
    bys = {r.seed: r for r in reps if not hasattr(r, "asan")}
    env = dict(os.environ, SIM_PAD="x" * 3000)

    def again(s):
        out = subprocess.run([exe, "run", prop, str(tier), str(s), "1", "1", "900"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env).stdout
        for l in out.splitlines():
            if l.startswith("R "):
                q = Rep(l)
                if (q.status, q.cls, q.trace) != (bys[s].status, bys[s].cls, bys[s].trace):
                    det_bad.append(s)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(again, sample))

    # candidates, one per class
    known = load_known()
    viol = [r for r in corpus + reps if r.status in BAD]
    by_cls = collections.OrderedDict()
    for r in sorted(viol, key=lambda r: (not hasattr(r, "file"), hasattr(r, "asan"), r.seed)):
        by_cls.setdefault((r.status, r.cls), []).append(r)
    confirmed, unconfirmed, known_hits = [], [], []
    for (st, cls), rs in by_cls.items():
        ok = False
        for r in rs[:6]:
            rexe = builder.build("asan") if hasattr(r, "asan") else exe
            text = open(r.file).read() if hasattr(r, "file") else scenario_text(rexe, prop, tier, r.seed)
            path = os.path.join(scratch, "cand.txt")
            open(path, "w").write(text)
            again2 = [replay(rexe, path) for _ in range(2)]
            if not all(q and q.status == st and q.cls == cls and q.trace == r.trace for q in again2):
                unconfirmed.append("%s seed %d: %s (%s)" % (cls, r.seed, r.msg, ", ".join(q.cls if q else "none" for q in again2)))
                continue
            h = hashlib.sha256(text.encode()).hexdigest()[:16]
            k = [x for x in known if x[0] == prop and x[1] == cls and x[2] == h]
            if k:
                known_hits.append(k[0])
                continue
            budget = 40 if len(confirmed) == 0 else 10
            mtext, tries = minimise(rexe, text, r, budget if a.tier == "quick" else 120, scratch)
            out = os.path.join(rdir, "%s-%s-%s.txt" % (prop, re.sub(r"\W+", "_", cls), hashlib.sha256(mtext.encode()).hexdigest()[:10]))
            open(out, "w").write("# %s\n" % r.msg + "# seed %d tier %d; minimised in %d runs; replay: python3 /verif/check.py --replay <this file>%s\n" % (r.seed, tier, tries, " --flavour asan" if hasattr(r, "asan") else "") + mtext)
            m = replay(rexe, out)
            if not (m and m.status == st and m.cls == cls):
                open(out, "w").write(text)
                m = replay(rexe, out)
            confirmed.append((cls, r, out, m.msg if m else r.msg, len(rs)))
            ok = True
            break
        if len(confirmed) >= 4:
            break

    # known findings are listed by their scenario, which is replayed here
    for kp, kc, kh, ktext in known:
        if kp == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, ktext))

    wall = time.time() - t0
    tot = collections.Counter()
    mx = {}
    marks = collections.Counter()
    for r in reps + corpus:
        for k, v in r.counters.items():
            if k.startswith("mark:"):
                marks[k[5:]] += 1
            elif k.startswith("max:"):
                mx[k[4:]] = max(mx.get(k[4:], v), v)
            else:
                tot[k] += v
    okr = [r for r in reps if r.status == 0]
    distinct = len(set(r.trace for r in okr))
    samples = []
    for r in okr[:2]:
        samples.append({"scenario": scenario_text(exe, prop, tier, r.seed).splitlines(), "trace": r.trace, "counters": {k: v for k, v in r.counters.items() if not k.startswith("mark:")}})
    faults = {k[6:]: v for k, v in tot.items() if k.startswith("fault:")}
    cov = {
        "evaluations": len(reps) + len(corpus),
        "distinct_nontrivial": distinct,
        "rule": plan["rule"] + " Non-trivial: completed without being discarded; distinct: different hash over the whole recorded history.",
        "samples": samples,
        "discarded": sum(1 for r in reps if r.status == 2),
        "corpus_scenarios": len(corpus),
        "seeds": {"first": first, "count": n_main},
        "runs_per_hour": int(3600 * len(reps) / max(wall_run, 1e-3)),
        "seeds_per_hour": int(3600 * len(set(r.seed for r in reps)) / max(wall_run, 1e-3)),
        "simulated_seconds": round(tot.get("sim_us", 0) / 1e6, 3),
        "faults_injected": faults,
        "events": {k: v for k, v in sorted(tot.items()) if not k.startswith("fault:") and k != "sim_us"},
        "maxima": mx,
        "states_measure": "marks: combinations of problem/manifold/solver/setting reached",
        "distinct_marks": len(marks),
        "marks_sample": dict(marks.most_common(40)),
        "sanitizer_runs": asan_runs,
        "determinism": {"rerun_in_another_process": len(sample), "different": len(det_bad)},
        "unconfirmed": unconfirmed,
        "components": {"real": plan["real"], "stub": plan["stub"]},
        "build_s": round(t_build, 2),
    }
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": plan["level"], "coverage": cov, "assumptions": plan["assumptions"], "wall_s": round(wall, 2), "violations": len(confirmed)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", os.path.abspath(scratch)])
    print("%s: %d runs (%d distinct, %d discarded), %d marks, faults %s, %.0f s" % (prop, len(reps), distinct, cov["discarded"], len(marks), faults, wall))
    if det_bad:
        print("note: %d of %d reruns differ: seeds %s" % (len(det_bad), len(sample), det_bad[:5]))
    for u in unconfirmed:
        print("note: not reproduced: " + u)
    if det_bad and prop == "P08":
        s = det_bad[0]
        out = os.path.join(rdir, "P08-process-%d.txt" % s)
        open(out, "w").write(scenario_text(exe, prop, tier, s))
        print("the run of seed %d differs between two processes" % s)
        print("VIOLATION property=%s replay=%s" % (prop, out))
        return 1
    for cls, r, out, msg, n in confirmed:
        print("%s (%d runs): %s" % (cls, n, msg))
        print("VIOLATION property=%s replay=%s" % (prop, out))
    return 1 if confirmed else 0


if __name__ == "__main__":
    sys.exit(main())
