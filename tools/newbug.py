#!/usr/bin/env python3
# newbug.py ID PROPERTY FILE  <<< JSON {"old":..., "new":..., "needs":..., "breaks":..., "demo": "ts code"} : writes seeded/ID from a replacement
import sys,json,subprocess,os,stat
id_,prop=sys.argv[1:3]
d=json.load(sys.stdin) if len(sys.argv)<4 else json.load(open(sys.argv[3]))
R=os.environ.get("REPO","/repo"); root="/verif/seeded/"+id_; os.makedirs(root,exist_ok=True)
for e in d["edits"]:
    p=R+"/"+e["file"]; s=open(p).read(); assert s.count(e["old"])==1,(e["file"],s.count(e["old"])); open(p,"w").write(s.replace(e["old"],e["new"]))
open(root+"/patch.diff","w").write(subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout)
subprocess.run(["git","-C",R,"checkout","-q","--","."])
open(root+"/demo.ts","w").write(d["demo"])
open(root+"/demo.sh","w").write('''#!/bin/bash
export HOME=/root LANG=C.UTF-8 TZ=UTC NO_COLOR=1 DENO_DIR=/opt/deno/cache DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1
exec timeout 120 /opt/deno/deno run --no-check --cached-only --no-remote --no-npm --config deno.jsonc --import-map /opt/mtkruto-deps/import_map.json --allow-read --allow-env "$(dirname "$(realpath "$0")")/demo.ts" < /dev/null
'''); os.chmod(root+"/demo.sh",0o755)
json.dump({"property":prop,"needs":d["needs"],"what_it_breaks":d["breaks"]},open(root+"/meta.json","w"),indent=1)
