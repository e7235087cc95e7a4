#!/usr/bin/env python3
"""Regenerates MANIFEST.json (development tool; no check uses it)."""
import json, subprocess
PBT="property-based testing: "
C={
 "C10":("exploration",PBT+"stateful model-based runs of the B+tree against an ordered map, with a structural audit after each phase, shrunk to a replay file","Random bounded histories: page sizes, key shapes, overflow rows, siblings settings; trusts the page dump of the guarded facade."),
 "C17":("exploration",PBT+"stateful model-based runs of the log (append/force/reopen/truncate) against the list of appended records, shrunk to a replay file","Random bounded histories including payload sizes at every block boundary; the file is read back by a fresh reader."),
 "C18":("exploration",PBT+"generated version histories of one row under a transaction timeline, every snapshot decoded and compared with the list-of-versions model, shrunk to a replay file","Random bounded histories over all column types and up to hundreds of versions; one writer of a row at a time."),
 "C19":("exploration",PBT+"value pools judged pairwise and triple-wise against exact arithmetic, plus index-tree and SQL differential runs, shrunk to a replay file","Boundary-grid and random values of all types; exact rational comparison is the oracle."),
 "C20":("exploration",PBT+"round trips of generated messages, structure-aware mutation of frames and a live server session, shrunk to a replay file","Generated messages and mutants; allocation is capped and watched in the worker."),
}
try: C.update(json.load(open('/verif/notes/claims.json')))
except FileNotFoundError: pass
ALL=["C%02d"%i for i in range(1,21)]
def commits(pat):
    out=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout
    return [l.split()[0] for l in out.splitlines() if pat(l.split(" ",1)[1])]
m={"version":1,"setup_cmd":"bash check.sh build",
 "hooks":{"guard":"cfg axverif","enable":"RUSTFLAGS=--cfg axverif (set in /verif/env.sh)","source_commits":commits(lambda s:s.startswith("verif"))},
 "checks":[{"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough","technique":C[p][1],"level":C[p][0],"level_note":C[p][2]} for p in ALL if p in C],
 "not_applicable":[{"property":p,"reason":"check not built yet"} for p in ALL if p not in C]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
