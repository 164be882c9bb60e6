#!/usr/bin/env python3
# Runs the engine on the programs of harness/selftest and compares each verdict with the one its comment states.
import glob, json, os, re, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
gosmt = os.environ.get("GOSMT", root + "/engine/bin/gosmt")
bad = 0
for f in sorted(glob.glob(root + "/harness/selftest/*.go")):
    for want, fn in re.findall(r"// want: (\w+)(?:.*\n)(?://.*\n)*func (\w+)\(\)", open(f).read()):
        if len(sys.argv) > 1 and fn not in sys.argv[1:]:
            continue
        p = subprocess.run([gosmt, "-worker", "vpharness/selftest." + fn, "-opts", "budget=60", "-harness", root + "/harness"], capture_output=True, text=True)
        try:
            r = json.loads(p.stdout)
        except Exception:
            print("BAD", fn, "no answer", p.stderr[-300:]); bad += 1; continue
        kinds = sorted({x["Kind"] for x in r["Findings"] or []})
        got = ",".join(kinds) or ("ok" if not r["Unsup"] and not r["Err"] else "unencodable %s" % (r["Notes"],))
        if got != want:
            print("BAD", fn, "want", want, "got", got); bad += 1
print("selftest:", "all as stated" if not bad else "%d differ" % bad)
sys.exit(bad > 0)
