#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the rules the analyser registers (bin/analyzer -list).
import json,subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
rules={}
for l in subprocess.run([here+'/bin/analyzer','-list'],capture_output=True,text=True,check=True).stdout.splitlines():
    i,t=l.split('\t'); rules[i]=t
NA={
"C18":"the parts decided statically are claimed as other properties (C07 complete reads, C14 response layout, C37 codecs, C44 record decoding); what is left, that loops bounded by byte counts of the response visit every batch and that nothing is filtered wrongly, relates runtime byte counts across reads of a stream, for which no sound rule was built",
"C39":"the claim is arithmetic over runtime quantities (number of members and partitions, integer division and remainders); no dataflow or type-level rule in reach bounds them, it needs execution or a solver",
"C40":"whether slice indices computed from message bytes stay in range, and how much is allocated, depends on the numeric content of the message; the decoders index without bounds checks by design (they are known to panic on truncated input), so a static rule could only report that every decoder fails",
"C41":"a property of histories of a cluster (brokers, logs, rebalances over time), not of any construct of the source",
"C42":"a real-time property of goroutine scheduling and network latency; the source only fixes a ticker period",
"C43":"functional correctness of third-party compression code on every byte string; the part visible in this source (which codec is called for which code) is C37",
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in rules:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",
          technique="static analysis: "+rules[i],level="other",
          level_note="Sound over-approximation of the modelled constructs: decided from /repo's type-checked SSA form on every run, all paths of the functions named in the evidence, no execution and no solver. Trusts the Go type checker and SSA builder, the documented behaviour of the standard library and dependencies, and the rule text in DESIGN.md."))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
json.dump(dict(version=1,setup_cmd="./build.sh",checks=checks,not_applicable=na,
  notes="One analyser (analyzer/, Go, golang.org/x/tools/go/ssa) decides every property from source; see DESIGN.md. No hooks in /repo; the commits there are fix: commits listed in known_findings.json."),open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not applicable')
