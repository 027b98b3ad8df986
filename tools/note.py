#!/usr/bin/env python3
"""note.py CXX "technique" "note": claim a check and regenerate the manifest."""
import json
import pathlib
import subprocess
import sys
T = pathlib.Path(__file__).resolve().parent
f = T / "check_notes.json"
n = json.loads(f.read_text())
n[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
f.write_text(json.dumps(dict(sorted(n.items())), indent=1) + "\n")
subprocess.run([sys.executable, T / "make_properties.py"], check=True)
subprocess.run([sys.executable, T / "make_manifest.py"], check=True)
