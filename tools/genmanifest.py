#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of harnesses (run: native -list)."""
import json,subprocess,sys,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
env=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOSUMDB="off")
hs=json.loads(subprocess.check_output(["go","run","./cmd/replay","-list"],cwd=here+"/harness",env=env))
by={}
for h in hs: by.setdefault(h["prop"],[]).append(h)
na={"Z01":"the code generator is a file-to-file program (go/packages, text/template, flags, os files): its deciding code is reflection- and I/O-driven library code the encoder cannot execute symbolically, and its input is Go source text, not a bounded data type"}
checks=[];nal=[]
for p in props:
    i=p["id"]
    if i in by:
        q=[h for h in by[i] if h["tiers"] in("","quick")]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":"bounded symbolic execution of the real Go code (SSA) with Z3 deciding branches and assertions; counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"Holds for every input within the bounds, nothing is claimed outside them: "+"; ".join(f"{h['name']}: {h['bounds']}" for h in q)[:1800]})
    else:
        nal.append({"property":i,"reason":na.get(i,"no check yet")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":nal,
   "notes":"check.sh builds the encoder (engine/) and the native harness binary (harness/) in a scratch directory from the current trees, then decides the property's harnesses one after another; see DESIGN.md."}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(nal),"not applicable")
