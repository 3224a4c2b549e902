"""python3-vt -m vt.check <property>: decide one property.

1. TLC explores the specification's own model for the property (the configurations in MODELS).
2. Scenarios, partly generated by TLC from the specification, are run on the code in /repo and recorded.
3. TLC validates every recorded trace against the specification (TraceAtop).
"""

import collections
import importlib
import json
import os
import shutil
import sys
import time
import traceback

from . import layout, real, run, tla

ROOT = tla.ROOT
# Seconds until the batches are to end, until TLC is to end; bytes of a file of traces.
LIMITS = {"quick": (330, 780, 32 << 20), "thorough": (6000, 14000, 320 << 20)}
EVID = os.path.join(ROOT, "evidence")


def shards(outdir, batches, count, budget):
    """Distribute the batches over at most count TRACES/LOGS file pairs, by size; budget: bytes of a TRACES file.

    Recorded traces fit many times into the budget; what is beyond it, because the code returned more than it
    could, is left out (and counted).
    """
    sized = sorted(((os.path.getsize(path), n, path) for n, path in batches), reverse=True)
    bins = [[0, []] for _ in range(min(count, len(sized)))]
    for size, n, path in sized:
        b = min(bins, key=lambda x: x[0])
        b[0] += size
        b[1].append((n, path))
    res, left = [], 0
    for i, (_, items) in enumerate(bins):
        logs, traces = os.path.join(outdir, f"logs{i}.ndjson"), os.path.join(outdir, f"traces{i}.ndjson")
        with open(logs, "w") as fl, open(traces, "w") as ft:
            off = 0
            for n, path in sorted(items):
                with open(path) as f:
                    first = json.loads(f.readline())
                    for d in first:
                        fl.write(json.dumps(d, separators=(",", ":")) + "\n")
                    for line in f:
                        if not line.endswith("\n") or ft.tell() + len(line) > budget:
                            left += 1
                            continue
                        t = json.loads(line)
                        t["id"] = f"{n}/{t['id']}"
                        for s in t["str"]:
                            s["log"] += off
                        for e in t["ev"]:
                            e.setdefault("h", 1)
                        ft.write(json.dumps(t, separators=(",", ":")) + "\n")
                    off += len(first)
        res.append((logs, traces))
    return res, left


def validate(outdir, batches, end, budget, procs=8):
    """Run TLC over all recorded traces; returns the counts, what failed, and why the validation is not complete."""
    total = collections.Counter()
    fails = []
    handles = []
    files, left = shards(outdir, batches, procs, budget)
    partial = [f"{left} traces larger than expected"] if left else []
    for i, (logs, traces) in enumerate(files):
        rep = os.path.join(outdir, f"report{i}.json")
        handles.append((tla.start("TraceAtop", "TraceAtop", env={"LOGS": logs, "TRACES": traces, "REPORT": rep}), rep, traces))
    for h, rep, traces in handles:
        with open(traces) as f:
            lines = [json.loads(x) for x in f]
        by = {t["id"]: t for t in lines}
        try:
            r = tla.finish(h, max(end - time.time(), 1))
        except tla.TimedOut as x:
            partial.append(x.args[0])
            fails += [dict(f, trace=by[f["id"]]) for f in tla.printed(x.args[1], "FAILED ")]
            continue
        with open(rep) as f:
            rep = json.load(f)
        if len(rep["fails"]) + rep["accepted"] != len(lines) and not rep["enough"]:
            k, l = rep["at"]
            t = lines[min(k, len(lines)) - 1]
            rep["fails"].append({"id": t["id"], "event": l, "a": "", "kind": "illegal",
                                 "faults": f"stuck: {len(rep['fails'])} + {rep['accepted']} of {len(lines)} traces"})
        total["states"] += r["distinct"]
        total["transitions"] += r["generated"]
        total["accepted"] += rep["accepted"]
        total["events"] += rep["events"]
        fails += [dict(x, trace=by[x["id"]]) for x in rep["fails"]]
        for t in lines:
            for e in t["ev"]:
                total["ev:" + e["a"]] += 1
    return total, fails, partial


def short(v, n=160):
    s = json.dumps(v, separators=(",", ":"))
    return v if len(s) <= n else s[:n] + "..."


def known(prop):
    """Findings recorded for the property: <<trace id, clause>> patterns (known-findings.txt)."""
    res = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known:"):
                    kv = dict(x.split("=", 1) for x in line.split()[1:] if "=" in x)
                    if kv.get("property") == prop:
                        res.append((kv["trace"], line.strip()))
    return res


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    mod = importlib.import_module("vt.props." + prop.lower())
    work = tla.scratch()
    violations = []
    try:
        layout.load()
        models = [(m, c, tla.start(m, c, workers=3 if tier == "quick" else 4, heap="3g"))
                  for m, c in mod.models(tier)] if hasattr(mod, "models") else []
        args = mod.batches(tier, seed) + real.batches(prop, tier, seed)
        done = run.run_batches(lambda a: real.make(a) if a[0] == "real" else mod.make(a), args, work, end=t0 + LIMITS[tier][0])
        ok = [(n, p) for n, p, code in done if code in (0, 3, "late") and os.path.exists(p) and os.path.getsize(p)]
        partial = [f"batch {n} could not be run" for n, _, code in done if code == 3]
        partial += [f"batch {n} took too long" for n, _, code in done if code == "late"]
        for n, _, code in done:
            if code not in (0, 3, "late"):
                violations.append({"id": f"{n}/", "event": 0, "a": "", "faults": f"the process died ({code})", "trace": None})
        total, fails, more = validate(work, ok, t0 + LIMITS[tier][1], LIMITS[tier][2]) if ok else (collections.Counter(), [], [])
        partial += more
        model_info = []
        for m, c, h in models:
            r = tla.finish(h, max(t0 + LIMITS[tier][1] - time.time(), 60))
            model_info.append({"module": m, "config": c, "states": r["distinct"], "transitions": r["generated"], "depth": r["depth"]})
        illegal = [f for f in fails if f["kind"] == "illegal"]
        violations += [f for f in fails if f["kind"] == "violation"]
        for n, p in ok:
            if os.path.exists(p + ".broken"):
                with open(p + ".broken") as f:
                    text = f.read()
                print(f"batch {n}, {text[:2000]}", file=sys.stderr)
                partial.append(f"a scenario of batch {n} could not be run")
        # What is not complete may contain violations, but cannot be accepted.
        if partial and not violations:
            raise tla.MachineryError("; ".join(partial[:5]))
        if illegal and not violations:
            raise tla.MachineryError(f"driver out of step with the specification: {short(illegal[0], 600)}")
        samples = [sample(p) for _, p in ok[:2]]
    finally:
        tla.stop()
        shutil.rmtree(work, ignore_errors=True)

    listed = known(prop)
    fresh = []
    for v in violations:
        hit = next((k for k in listed if k[0] == v["id"]), None)
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[1]}")
        else:
            fresh.append(v)

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["states"] + sum(m["states"] for m in model_info),
            "transitions": total["transitions"] + sum(m["transitions"] for m in model_info),
            "traces_validated_against_impl": total["accepted"],
            "events_validated": total["events"],
            "events_by_kind": {k[3:]: n for k, n in sorted(total.items()) if k.startswith("ev:")},
            "models": model_info,
            "batches": len(args),
            "what": mod.__doc__.strip() + (" Also the logs written by atop itself in data/, as they are and with their samples rearranged."
                                           if prop in real.USES else ""),
            "samples": samples,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "zlib and gzip of the Python standard library decide whether a block decompresses",
            "the format tables of spec/AtopSchema.tla are the formats (their declared lengths equal those in real logs of every version)",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(fresh),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(EVID, f"replay-{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "trace": v["id"], "event": v["event"],
                           "broken": v["faults"], "recorded": v["trace"]}, f)
            if i == 0:
                print(f"{prop}: {len(fresh)} of {total['accepted'] + len(fails)} traces rejected; first: trace {v['id']}, "
                      f"event {v['event']} ({v['a']}): {v['faults'][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: {total['accepted']} traces, {total['events']} events accepted; "
          f"{ev['coverage']['states']} states; {ev['wall_s']} s")
    return 0


def sample(path):
    """The first recorded trace of a batch, abridged."""
    with open(path) as f:
        f.readline()
        t = json.loads(f.readline())
    return {"id": t["id"], "streams": t["str"], "events": [{k: short(v) for k, v in e.items()} for e in t["ev"][:6]]}


if __name__ == "__main__":
    try:
        code = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        code = 2
        tla.stop()
    sys.stdout.flush()
    os._exit(code)
