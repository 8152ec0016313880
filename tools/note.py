import json, sys, subprocess
p = '/verif/tools/manifest_notes.json'
n = json.load(open(p))
n[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(n, open(p, 'w'), indent=1)
subprocess.run(["python3", "/verif/tools/gen_manifest.py"])
