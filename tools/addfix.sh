#!/bin/bash
# addfix.sh PROP COMMIT : records a fix: commit of /repo in known_findings.json
cd "$(dirname "$0")/.." && python3 - "$1" "$2" <<'P'
import json,sys,subprocess
p,c=sys.argv[1:]
m=subprocess.run(["git","-C","/repo","log","-1","--format=%s",c],capture_output=True,text=True,check=True).stdout.strip()
assert m.startswith("fix: ")
k=json.load(open("known_findings.json"))
k.append({"property":p,"status":"fixed","what":f"fixed: property={p} {c} {m[5:]}"})
json.dump(k,open("known_findings.json","w"),indent=1)
P
