#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree."""
import importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), HERE]
import run

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import props
    known = json.load(open(os.path.join(HERE, "known-findings.json")))
    s = run.Session(prop)
    try:
        props.run(s, prop, tier, seed)
    finally:
        s.close()
    new = []
    for v in s.found:
        k = next((k for k in known.get("findings", []) if k["property"] == prop and match(k, v)), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            new.append(v)
    rdir = os.path.join(HERE, "work", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(new):
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump(v, open(p, "w"), indent=1)
        print("  %s\n  observed: %s\n  expected: %s" % (v["label"], json.dumps(v["event"])[:600], str(v["expected"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": sum(m["states"] for m in s.mc) + s.events, "transitions": sum(m["transitions"] for m in s.mc) + s.events,
                       "traces_validated_against_impl": s.traces, "samples": s.sample, "events_validated": s.events,
                       "operations": dict(s.ops), "result_codes": {str(k): v for k, v in s.rcs.items()}, "models": s.mc},
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d traces, %d events, %d model states, %.1f s: %s" %
          (prop, tier, s.traces, s.events, sum(m["states"] for m in s.mc), time.time() - t0,
           "VIOLATED" if new else "held"))
    return 1 if new else 0

def match(k, v):
    e = dict(v["event"])
    return all(e.get(f) == x for f, x in k["event"].items())

if __name__ == "__main__":
    try:
        sys.exit(main())
    except run.Machinery as e:
        print("MACHINERY: %s" % e)
        sys.exit(2)
