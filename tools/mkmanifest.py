#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the list of built checks
import json, subprocess, os
hook = "7dea95e"
full = subprocess.run(["git","-C","/repo","rev-parse",hook],capture_output=True,text=True).stdout.strip()
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[]; na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"/verif/checks/{i.lower()}.cpp"):
        unit = i in ("C16","C17","C18","C19","C20")
        checks.append({"property":i,"quick_cmd":f"bash /verif/run.sh {i}","thorough_cmd":f"bash /verif/run.sh {i}",
          "evidence_file":f"evidence/{i}.json",
          "technique":"exhaustive bounded enumeration of call sequences on the real code against a reference model" if unit else "stateless model checking: exhaustive bounded enumeration of executions of the real program on a simulated kernel",
          "level":"model_checking",
          "level_note":("Every operation sequence and value from the stated alphabet up to the stated bound is executed on the real code and compared with an independent reference; nothing beyond the bound is claimed." if unit else "Every schedule, fault and input from the stated alphabet within the deviation bound is executed on the real code; trusts the simulated kernel's fidelity to Linux and sequentially consistent memory; nothing beyond the bounds is claimed.")})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"bash /verif/setup.sh",
 "hooks":{"guard":"DW_VERIF","enable":"-DDW_VERIF -DDW_VERIF_BUF_SIZE=<bytes> -DDW_VERIF_MAX_CONNS=<n> -DDW_VERIF_MAX_REQS=<n>u -DDW_VERIF_MAX_PKTS=<n> (set by /verif/build.sh, variants in /verif/sim/variants.txt)","source_commits":[full]},
 "checks":checks,"not_applicable":na,
 "notes":"Checks compile /repo/src into shared objects whose operating-system calls are redirected to a simulated kernel (/verif/sim) and enumerate executions. Replay a violation with: bash /verif/run.sh <property> --replay <file>."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
