#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl + notes.json (technique / level_note per property)."""
import json
props=[json.loads(l) for l in open('properties.jsonl') if l.strip()]
notes=json.load(open('notes.json'))
checks=[];na=[]
for p in props:
    n=notes.get(p['id'])
    if n is None or 'reason' in n:
        na.append({"property":p['id'],"reason":(n or {}).get('reason','not built yet')}); continue
    checks.append({"property":p['id'],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough",
      "technique":n['technique'],"level":"exploration","level_note":n['level_note'],"evidence_file":f"evidence/{p['id']}.json"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
   "hooks":{"guard":"cfg(vf_hooks)","enable":"check.sh sets RUSTFLAGS=\"--cfg vf_hooks\" when it builds the harness (and coerce with it)","source_commits":["63c7a22"]},
   "notes":"The only hook re-exports private message types (C14); every other check uses the public API. See DESIGN.md."}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
