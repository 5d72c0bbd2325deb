#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by simulation.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Anything else: the check itself failed."""
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

import build

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("KSIM_OUT", HERE)          # where evidence and replays go
# cases of the quick tier; the time cap only matters on a loaded machine
QUICK = {"C01": 27000, "C02": 78000, "C03": 30000, "C04": 30000, "C05": 60000, "C06": 54000, "C07": 72000, "C08":
         60000, "C09": 66000, "C10": 48000, "C11": 60000, "C12": 120000, "C13": 90000, "C14": 200000, "C15": 20000, "C16":
         200000, "C17": 30000, "C18": 48000, "C19": 27000, "C22": 100000, "C23": 100000, "C24": 80000, "C25": 40000, "C26": 20000, "C27": 180000, "C28": 140000, "C29": 90000, "C30": 24000}
QUICK_CAP, THOROUGH_S = 75, 600
LIB = {"C12", "C13", "C14", "C15", "C16", "C23", "C27", "C28", "C29"}
TOOL_REAL = ["tools/*.cc and every header they include: command line, readers, mappers, event sets, matcher, scorers, "
             "assessment, bootstrap, curve writer (compiled from /repo's working tree, twice: assertions on, and -O2 -DNDEBUG)",
             "libstdc++ (streams, containers, random engines)"]
LIB_REAL = ["core/, reader/, mapper/, matcher/, scorer/ (compiled from /repo's working tree)", "libstdc++"]
STUB = ["files, pipes, standard streams, stdio and stat calls", "the heap (addresses, initial contents, exhaustion)",
        "clocks, sleeping, entropy, environment, process ids", "threads, mutexes, condition variables, static initialisation, OpenMP runtime"]
RULE = {
    "default": "Cases are generated from VERIF_SEED: inputs, options, delivery (short transfers, EINTR), faults, heap and thread "
               "environment. An execution counts as non-trivial if a fault fired in it, a transfer was cut or interrupted, threads "
               "were switched, stored bytes were damaged, records were reordered, the heap environment was not the plain one, or it is "
               "a library history. Two of them are the same if they end alike and pass through the same sequence of (stream, "
               "operation, outcome) transitions, repetitions of a transition collapsed; damage, order and the list of thread switches "
               "are part of the identity, and for library histories the complete event log.",
}


def known_findings():
    known = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
                if m:
                    known[(m.group(1), m.group(2))] = m.group(3)
    except OSError:
        pass
    return known


def replay(exe, path, known, *more):
    p = subprocess.run([exe, "replay", path, "--known", known, *more], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=300)
    return p.returncode, p.stdout


def main():
    if len(sys.argv) < 2:
        sys.stderr.write(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exe = build.build()
    if prop in LIB and not os.path.exists(exe + ".libok"):
        sys.stderr.write("check: library scenarios were not built\n")
        return 3
    tb = time.time() - t0
    known = known_findings()
    kids = ",".join(k[1] for k in known if k[0] == prop)
    work = tempfile.mkdtemp(prefix="ksim-")
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    try:
        return explore(prop, tier, seed, exe, tb, t0, known, kids, work, rdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, tier, seed, exe, tb, t0, known, kids, work, rdir):
    found, kn = [], {}
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.replay")))
    for c in corpus:
        saved = os.path.join(work, os.path.basename(c))
        rc, out = replay(exe, c, kids, "--save", saved)
        if rc == 1:
            found.append((-1, out.split("\n", 1)[0].split()[2], out.split("\n", 2)[1], saved, None))
            break
        kn.update(re.findall(r"^KNOWN (\S+) (.*)$", out, re.M))
        if rc != 0:
            sys.stderr.write("check: cannot replay %s (%d)\n%s\n" % (c, rc, out))
            return 3
    nw = max(1, min(8, os.cpu_count() or 1))
    count = QUICK[prop] if tier == "quick" else 1 << 62
    cap = QUICK_CAP if tier == "quick" else THOROUGH_S
    t1 = time.time()
    res = []
    if not found:
        procs = []
        for k in range(nw):
            out = os.path.join(work, "w%d" % k)
            err = open(out + ".err", "w")
            procs.append((out, subprocess.Popen(
                [exe, "run", "--prop", prop, "--seed", str(seed), "--worker", str(k), "--workers", str(nw), "--count", str(count),
                 "--time", str(cap), "--out", out, "--replays", work, "--known", kids], stdout=subprocess.DEVNULL, stderr=err)))
        for out, p in procs:
            try:
                rc = p.wait(timeout=cap + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = -9
            if rc not in (0, 1):
                sys.stderr.write("check: worker ended with %s\n%s\n" % (rc, open(out + ".err").read()[-3000:]))
                continue
            with open(out + ".json") as f:
                r = json.load(f)
            with open(out + ".paths", "rb") as f:
                d = f.read()
            r["paths"] = struct.unpack("<%dQ" % (len(d) // 8), d)
            res.append(r)
            if r["violation"]:
                v = r["violation"]
                found.append((v["case"], v["class"], v["message"], v["replay"], r))
    wall = time.time() - t1
    complete = len(res) == nw or bool(found)
    # a violation counts only if fresh processes reproduce it exactly
    found.sort(key=lambda x: x[0])
    verdict = None
    for case, cls, msg, path, _ in found:
        ok = True
        for _i in range(2):
            rc, out = replay(exe, path, kids)
            if rc != 1:
                ok = False
                sys.stderr.write("check: replay of %s ends with %d\n%s\n" % (path, rc, out[-2000:]))
        if ok:
            dst = os.path.join(rdir, "%s-seed%d-%s.replay" % (prop, seed, "corpus" if case < 0 else case))
            shutil.copyfile(path, dst)
            verdict = (cls, msg, dst)
            break

    def total(k):
        return sum(r[k] for r in res)

    def merged(k):
        m = {}
        for r in res:
            for a, b in r[k].items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))

    paths = set()
    for r in res:
        paths.update(r["paths"])
    for r in res:
        for i, m in r["known"]:
            kn.setdefault(i, m)
    cov = {
        "evaluations": total("execs"), "distinct_nontrivial": len(paths), "rule": RULE.get(prop, RULE["default"]),
        "samples": [s for r in res for s in r["samples"]][:2] or ["(stopped at the corpus)"],
        "cases": total("cases"), "cases_skipped": total("skipped"), "disturbed_executions": total("disturbed"),
        "cases_per_hour": round(total("cases") / wall * 3600) if wall and res else 0,
        "runs_per_hour": round(total("execs") / wall * 3600) if wall and res else 0,
        "simulated_seconds": round(total("simtime_ns") / 1e9, 3), "system_calls": total("ops"), "allocations": total("allocs"),
        "instrumented_steps": total("steps"), "thread_switches": total("switches"), "bytes_read": total("bytes_in"),
        "bytes_written": total("bytes_out"), "faults_injected": merged("fired"), "probes": merged("probes"),
        "outcomes": merged("outcomes"), "repeatability_rechecks": total("rechecks"), "repeatability_mismatches": total("mismatches"),
        "corpus_replayed": len(corpus), "workers": nw, "build_s": round(tb, 1),
        "real_components": LIB_REAL if prop in LIB else TOOL_REAL, "stubbed_components": STUB,
        "known_findings_seen": kn,
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": 1 if verdict else 0,
          "assumptions": [
              "A clean batch is evidence, not proof: schedules, faults and inputs are sampled.",
              "The simulated environment (system calls, heap, threads) behaves as POSIX and glibc specify; scheduling points are "
              "system calls, synchronisation, allocations and, in the instrumented build, every memory access.",
          ]}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for i, m in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, i)]))
    if verdict:
        print("%s: %s" % (verdict[0], verdict[1]))
        print("VIOLATION property=%s replay=%s" % (prop, verdict[2]))
        return 1
    if found or not complete:
        sys.stderr.write("check: a violation could not be reproduced, or a worker failed\n")
        return 3
    if cov["repeatability_mismatches"]:
        sys.stderr.write("check: some executions were not repeatable\n")
        return 3
    print("%s held: %d cases, %d executions, %d distinct disturbed ones, %.0f s" %
          (prop, cov["cases"], cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
