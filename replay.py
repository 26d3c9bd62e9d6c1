#!/usr/bin/env python3
"""replay.py PROPERTY SEED CASE: runs one generated case again against /repo's working tree."""
import json, os, shutil, subprocess, sys, tempfile
import vf
scratch = tempfile.mkdtemp(prefix="zanzi-verif-")
try:
    b, note = vf.build(scratch)
    if not b:
        sys.exit(note)
    json.dump(vf.source_constants(), open(os.path.join(scratch, "dict.json"), "w"))
    env = dict(vf.ENV, VF_PROP=sys.argv[1], VF_SEED=sys.argv[2], VF_CASE=sys.argv[3], VF_DICT=os.path.join(scratch, "dict.json"))
    sys.exit(subprocess.run([b, "-test.run", "TestVF"], cwd=scratch, env=env).returncode)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
