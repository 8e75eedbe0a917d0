"""The fixed programs of a check do not compile against the library: write that down as its violation."""
import json, sys

i, tier, seed, log, here = sys.argv[1:]
text = open(log).read()
what = "a program that uses the library's interface is rejected by the compiler: " + next((l for l in text.splitlines() if l.startswith("error")), "error")
f = f"{here}/replays/{i}-compile.json"
json.dump({"property": i, "seed": int(seed), "what": what, "case": {"check": "support", "error": text}}, open(f, "w"), indent=1)
json.dump({"property": i, "tier": tier, "seed": int(seed), "level": "exploration",
           "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the fixed programs compile", "samples": [what]},
           "assumptions": [], "violations": [{"what": what, "replay": f}], "wall_s": 0},
          open(f"{here}/evidence/{i}.json", "w"), indent=1)
print(f"{i}: {what}\nVIOLATION property={i} replay={f}")
