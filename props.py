#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe="events and results at the public API",
         note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, note=note, na=na))

S = "src/efsw/"
INO, GEN, FW = S + "FileWatcherInotify.cpp", S + "FileWatcherGeneric.cpp", S + "FileWatcher.cpp"
DWG, SNAP, FI, FSYS = S + "DirWatcherGeneric.cpp", S + "DirectorySnapshot.cpp", S + "FileInfo.cpp", S + "FileSystem.cpp"
PFS = S + "platform/posix/FileSystemImpl.cpp"
exec(open(os.path.join(HERE, "props_table.py")).read())

built = [p for p in P if p["na"] is None and os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".cpp"))]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        if p in built or p["na"]:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                            "observe_at": [p["observe"]], "hook_needed": "no"}}) + "\n")
m = {"version": 1, "setup_cmd": "bash mc/build.sh .build " + " ".join(p["id"].lower() for p in built if p["id"] != "C22") +
     "; bash mc/build.sh .build c22 || true",
     "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"],
                 "thorough_cmd": "./check " + p["id"] + " --tier thorough",
                 "technique": "stateless model checking of the real code (controlled scheduler, simulated kernel, "
                              "exhaustive enumeration up to a deviation bound), traces replayed on the real kernel",
                 "level": "model_checking", "level_note": p["note"]} for p in built],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
