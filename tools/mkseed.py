#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks' DEMO.py < patch  -- assembles seeded/ID."""
import json, os, shutil, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, p, needs, what, demo = sys.argv[1:6]
d = os.path.join(H, "seeded", i)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
shutil.copy(os.path.join(H, "tools/kit/kit.py"), d)
shutil.copy(os.path.join(H, "lib/meshgen.py"), d)
shutil.copy(os.path.join(H, "harness/wrap_solve.cpp"), d)
shutil.copytree(os.path.join(H, "stub"), os.path.join(d, "stub"))
for f in [demo] + sys.argv[6:]:
    shutil.copy(f, os.path.join(d, "demo.py" if f == demo else os.path.basename(f)))
open(os.path.join(d, "patch.diff"), "w").write(sys.stdin.read())
open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump(dict(property=p, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
