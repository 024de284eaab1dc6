"""python -m pbt.run <property> [--replay FILE]; VERIF_SEED and VERIF_TIER choose seed and depth."""
import argparse
import glob
import json
import logging
import multiprocessing
import os
import signal
import sys
import time

from pbt import core


def replay(prop, path):
    with open(path) as f:
        rep = json.load(f)
    core.import_subject()
    logging.disable(logging.CRITICAL)
    mod = core.load(prop)
    part = [p for p in mod.PARTS if p.name == rep["part"]][0]
    try:
        core.judge(part, rep["case"])
    except core.Violation as e:
        print(e)
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    print("property {} holds on {}".format(prop, path))
    return 0


def known_findings(prop):
    out = []
    path = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property={} ".format(prop)):
                out.append(line.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    prop = a.prop.upper()
    if a.replay:
        return replay(prop, a.replay)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sidermit = core.import_subject()
    mod = core.load(prop)
    if not os.path.realpath(sidermit.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
        print("sidermit was imported from", sidermit.__file__)
        return 2
    cap = getattr(mod, "CAP", {}).get(tier, 300 if tier == "quick" else 2400)
    scratch = os.environ["VERIF_SCRATCH"]
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(a.workers):
        out = os.path.join(scratch, "w{}.json".format(w))
        p = ctx.Process(target=core.run_worker, args=(prop, tier, seed, w, a.workers, t0 + cap, out))
        p.start()
        procs.append((p, out))
    results = [None] * len(procs)
    bad = None
    hard = t0 + cap + (300 if tier == "quick" else 900)
    while any(r is None for r in results):
        for i, (p, out) in enumerate(procs):
            if results[i] is None and not p.is_alive():
                p.join()
                if os.path.exists(out):
                    results[i] = json.load(open(out))
                else:
                    results[i] = dict(evaluations=0, trivial=0, hashes=[], tags={}, samples=[], violation=None,
                                      parts={}, truncated=False, error="worker ended with {}".format(p.exitcode))
                if results[i]["violation"] and bad is None:
                    bad = results[i]["violation"]
        if bad is not None or time.time() > hard:
            break
        time.sleep(0.05)
    for p, _ in procs:
        if p.is_alive():
            p.kill()
            p.join()
    if bad is None:
        for i, (p, out) in enumerate(procs):
            if results[i] is None and os.path.exists(out):
                results[i] = json.load(open(out))
                bad = bad or results[i]["violation"]
    done = [r for r in results if r is not None]
    errors = [r["error"] for r in done if r["error"]]
    hashes, tags, samples, parts = set(), {}, [], {}
    for r in done:
        hashes |= set(r["hashes"])
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        samples += r["samples"]
        for k, v in r["parts"].items():
            q = parts.setdefault(k, dict(evaluations=0, seconds=0))
            q["evaluations"] += v["evaluations"]
            q["seconds"] = max(q["seconds"], v["seconds"])
    seen, chosen = set(), []
    for s in samples:
        if s["part"] not in seen or len(chosen) < 3:
            seen.add(s["part"])
            chosen.append(s)
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration",
                    coverage=dict(evaluations=sum(r["evaluations"] for r in done), distinct_nontrivial=len(hashes),
                                  rule=mod.RULE, samples=chosen[:8], trivial=sum(r["trivial"] for r in done),
                                  tags=dict(sorted(tags.items())), parts=parts, workers=len(procs),
                                  truncated_by_time=any(r["truncated"] for r in done)),
                    assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
                    violations=1 if bad else 0)
    core.write_json(os.path.join(core.VERIF, "evidence", prop + ".json"), evidence)
    for k in known_findings(prop):
        print("KNOWN-FINDING:" + k[len("finding:"):])
    if bad:
        path = os.path.join(core.VERIF, "replays", "{}-{}.json".format(prop, core.case_hash(bad["part"], bad["case"])))
        core.write_json(path, dict(property=prop, part=bad["part"], message=bad["message"], case=bad["case"]))
        print(bad["message"])
        print("case:", json.dumps(bad["case"], default=str)[:4000])
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if errors or len(done) < len(procs):
        print("check error:", errors[0] if errors else "a worker did not finish")
        return 2
    print("{} holds: {} cases, {} distinct non-trivial, {} s".format(prop, evidence["coverage"]["evaluations"],
                                                                    len(hashes), evidence["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    os._exit(code)
