#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]: decide one property of jeremyong/gal with the solver.

exit 0  every obligation explored was discharged (or left undecided, which is reported in the evidence)
exit 1  a counterexample was found and reproduced against the real headers with g++:
        VIOLATION property=<id> replay=<path>
"""
import sys, os, time, json, tempfile, shutil, random, traceback, multiprocessing as mp
from collections import Counter
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from gv import prog, harness, suites
from gv.prog import Prog, PR
from gv.harness import Harness, HR

NPROC = max(2, min(8, os.cpu_count() or 2))
JOBS, WORK = [], None

def work(k):
    """one job: ('p', [Prog]) or ('h', Harness) -> (k, [result], [(index, verdict, text, vals)])"""
    kind, what = JOBS[k]
    try:
        if kind == "p":
            rs = prog.check_batch((what, {}, WORK, f"b{k}"))
            return k, rs, [confirm(p, r, f"c{k}_{i}") if r.status not in ("ok", "undefined") else None for i, (p, r) in enumerate(zip(what, rs))]
        r = harness.check(what, WORK)
        c = None
        if r.status == "violation":
            ok, txt = harness.replay(what, r.model, WORK)
            c = ("confirmed" if ok else "unconfirmed", txt, r.model)
        return k, [r], [c]
    except Exception as e:      # an error of the machinery is never an alarm
        out = []
        for p in what if kind == "p" else [what]:
            r = PR(p) if kind == "p" else HR(p)
            r.status, r.msg = "undecided", "internal: " + traceback.format_exc()[-600:]
            out.append(r)
        return k, out, [None] * len(out)

def confirm(p, r, tag):
    """reproduce with g++ against the real headers; only a reproduced difference counts"""
    try:
        if r.status == "compile":
            v, txt, vals = prog.replay(p, [], WORK, tag)
            if v == "compile":
                return ("confirmed", "the program does not compile (g++ and clang++):\n" + txt, None)
            v, txt, vals = prog.replay(p, prog.candidates(p, None), WORK, tag)
            return (v, txt, vals)
        if r.model and r.model[0] == "extra":
            return confirm_extra(p, r, tag)
        v, txt, vals = prog.replay(p, prog.candidates(p, r.model), WORK, tag)
        if v == "compile":
            return ("unconfirmed", "replay does not compile: " + txt[-500:], None)
        return (v, txt, vals)
    except Exception:
        return ("unconfirmed", traceback.format_exc()[-600:], None)

def confirm_extra(p, r, tag):
    _, s, e = r.model
    vals = prog.candidates(p, None)[0]
    v, txt, w = prog.replay(p, [vals], WORK, tag)
    if v == "confirmed":
        return (v, txt, w)
    rc, out = prog.run([os.path.join(WORK, tag + "_replay")] + [repr(float(x)) for x in vals], 30)
    if rc == 0 and any(l.split()[:3] == ["R", str(s), str(e)] for l in out.splitlines()):
        return ("confirmed", f"the result carries component {e:#b} (result {s}), which is zero for every input\n" + out, vals)
    return ("unconfirmed", out, None)

def run_suite(pid, thorough, seed, deadline, log):
    global JOBS, WORK
    items = suites.suite(pid, thorough, seed)
    progs = [x for x in items if isinstance(x, Prog)]
    hs = [x for x in items if isinstance(x, Harness)]
    nb = 6
    # a batch shares one translation unit; neighbours in the list are similar, so deal them out
    n = max(1, (len(progs) + nb - 1) // nb)
    batches = [progs[i::n] for i in range(n)]
    JOBS = [("h", h) for h in sorted(hs, key=lambda h: -h.budget)] + [("p", b) for b in batches]
    order = list(range(len(JOBS)))
    if hs and batches:
        # interleave: half of the workers start on the program batches
        hk, pk = order[:len(hs)], order[len(hs):]
        order = []
        while hk or pk:
            order += hk[:2] + pk[:6]
            hk, pk = hk[2:], pk[6:]
    res, found = [], None
    done = 0
    with mp.get_context("fork").Pool(NPROC) as P:
        it = P.imap_unordered(work, order)
        while done < len(order):
            left = deadline - time.time()
            if left <= 0:
                log.append(f"{len(order) - done} of {len(order)} jobs not finished before the deadline")
                break
            try:
                k, rs, cs = it.next(timeout=left)
            except mp.TimeoutError:
                continue
            done += 1
            kind, what = JOBS[k]
            for j, (r, c) in enumerate(zip(rs, cs)):
                o = what[j] if kind == "p" else what
                res.append((o, r, c))
                if c and c[0] == "confirmed" and not found:
                    found = (o, r, c)
            if found:
                break
        P.terminate()
    return items, res, found

def write_replay(pid, o, r, c):
    d = os.path.join(ROOT, "replays", f"{pid}-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    verdict, txt, vals = c
    if isinstance(o, Prog):
        src = prog.source([o]) + prog.MAIN
        args = " ".join(repr(float(v)) for v in vals) if vals else ""
        flags = prog.GCC
    else:
        src = o.source() + harness.MAIN
        args = " ".join(f"{i} {v}" for i, v in vals or [])
        flags = harness.GCC + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    with open(os.path.join(d, "replay.cpp"), "w") as h:
        h.write(src)
    with open(os.path.join(d, "replay.txt"), "w") as h:
        h.write(f"property {pid}\nobligation: {o.desc}\nsolver: {r.msg}\n{txt}\n")
    f = os.path.join(d, "replay.sh")
    with open(f, "w") as h:
        h.write("#!/bin/sh\n# reproduces the counterexample against /repo's headers; the expected values are in replay.txt\n"
                f'cd "$(dirname "$0")" && {" ".join(flags)} -I {prog.REPO}/public -I ../../gv replay.cpp -o replay && ./replay {args}\n')
    os.chmod(f, 0o755)
    return f

def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    global WORK
    WORK = tempfile.mkdtemp(prefix=f"gv-{pid}-")
    log = []
    try:
        items, res, found = run_suite(pid, thorough, seed, t0 + (float(os.environ.get("GV_DEADLINE", 3600 * 3 if thorough else 600))), log)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
    P = [(o, r, c) for o, r, c in res if isinstance(o, Prog)]
    H = [(o, r, c) for o, r, c in res if isinstance(o, Harness)]
    stat = Counter(r.status for _, r, _ in P)
    hstat = Counter(r.status for _, r, _ in H)
    open_ = [f"{r.status}: {r.desc}: {r.msg[:200]}" for _, r, c in res if r.status not in ("ok", "undefined", "violation", "compile")]
    unconf = [f"{r.desc}: {r.msg[:200]} ({c[1][:200]})" for _, r, c in res if c and c[0] != "confirmed" and r.status in ("violation", "compile")]
    good = [o for o, r, _ in P if r.status == "ok" and r.nontrivial]
    random.Random(seed).shuffle(good)
    info = suites.INFO[pid]
    cov = {
        "programs": len(P),
        "disagreements_checked": sum(r.comps for _, r, _ in P) + sum(r.asserts for _, r, _ in H),
        "samples": [o.desc for o in good[:6]] + [f"{o.name}: {o.desc} [{o.bounds}]" for o, r, _ in H[:3]],
        "client_programs_decided": stat["ok"],
        "client_programs_nontrivial": len(good),
        "programs_by_status": dict(stat),
        "internal_obligations": len(H),
        "internal_obligations_by_status": dict(hstat),
        "queries_discharged": sum(r.queries for _, r, _ in res),
        "solver_seconds": round(sum(r.solver_s for _, r, _ in res), 3),
        "instructions_executed_symbolically": sum(r.steps for _, r, _ in res),
        "paths": sum(r.paths for _, r, _ in res),
        "functions_encoded": sum(r.fns for _, r, _ in res),
        "functions": info["functions"],
        "bounds": info["bounds"],
        "outside_bounds": info["outside"],
        "undecided": open_[:20],
        "undecided_count": len(open_),
        "unconfirmed_counterexamples": unconf[:20],
        "notes": log,
    }
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "translation_validation", "coverage": cov,
          "assumptions": suites.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 1 if found else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print(f"{pid}: {len(P)} programs {dict(stat)}, {len(H)} internal obligations {dict(hstat)}, {cov['queries_discharged']} queries, solver {cov['solver_seconds']} s, wall {ev['wall_s']} s")
    for x in (open_ + unconf + log)[:20]:
        print("  note:", x.replace("\n", " ")[:400])
    if found:
        o, r, c = found
        f = write_replay(pid, o, r, c)
        print(f"  {o.desc}\n  {r.msg[:500]}\n  " + c[1][:1500].replace("\n", "\n  "))
        print(f"VIOLATION property={pid} replay={f}")
        sys.stdout.flush()
        return 1
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
