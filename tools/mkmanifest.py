#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the harness implements."""
import json, os, re, glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
done=set()
for f in glob.glob(os.path.join(root,"harness","props_*.go")):
    done|=set(re.findall(r'core\.Prop\{ID: "(C\d\d)"',open(f).read()))
TECH={"default":"runtime monitoring: online oracle (independent math/big reference model) over generated, boundary-biased and hostile executions of the real code",
 "C25":"runtime monitoring: Go race detector plus a result-equality monitor over concurrent workloads with injected yields",
 "C26":"runtime monitoring: deep by-value fingerprints (incl. spare slice capacity) of every argument before and after each hooked call",
 "C27":"runtime monitoring: crash/consistency monitor over mutated and grammar-aware hostile inputs",
 "C28":"runtime monitoring: full protocol runs with injected Byzantine faults, checked online against a ledger of the dealt secrets",
 "C29":"runtime monitoring: offline nonce/secret log extracted from real outputs, checked for distinctness and determinism"}
NOTE="Decides every execution the workload generators produce (counts in the evidence file) with an oracle independent of the code under test; exploration, not proof. Trusts math/big, SHA-256/SHA-512 of the Go standard library and the reference model in harness/ref (self-tested against published vectors at start-up)."
NOTES={"C25":"The race detector reports only races on executed schedules; workloads mix all read-only operations on shared objects from many goroutines. "+NOTE}
checks=[]
for p in props:
    i=p["id"]
    if i in done:
        checks.append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",evidence_file=f"evidence/{i}.json",
          technique=TECH.get(i,TECH["default"]),level="exploration",level_note=NOTES.get(i,NOTE)))
m=dict(version=1,setup_cmd="bash run.sh setup",
  hooks=dict(guard="verif_access (build tag of the harness only; no hook is committed in /repo)",enable="run.sh builds with -tags verif_access and -overlay, which adds one accessor file to package poly; without it the harness still builds",source_commits=[]),
  checks=checks,
  not_applicable=[dict(property=p["id"],reason="check not built yet") for p in props if p["id"] not in done],
  notes="run.sh <id> <tier> builds the harness against /repo's working tree in a scratch directory and runs it; run.sh replay FILE replays a recorded violation. See DESIGN.md and KNOWN_FINDINGS.txt.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
print(len(checks),"checks")
