#!/usr/bin/env python3
"""note.py ID TECHNIQUE NOTE: records what a check does and rewrites MANIFEST.json"""
import json, sys, subprocess
p = 'tools/notes.json'
d = json.load(open(p))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(dict(sorted(d.items())), open(p, 'w'), indent=1)
subprocess.check_call([sys.executable, 'tools/mkmanifest.py'])
