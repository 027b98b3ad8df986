#!/usr/bin/env python3
"""fixed.py CXX [COMMIT]: record a fix commit (default HEAD of /repo) in known_findings.json."""
import json
import pathlib
import subprocess
import sys
f = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
k = json.loads(f.read_text())
l = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", *sys.argv[2:3]], capture_output=True, text=True, check=True).stdout.strip()
k["fixed"].append(f"fixed: property={sys.argv[1]} {l}")
f.write_text(json.dumps(k, indent=1) + "\n")
