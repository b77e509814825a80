#!/usr/bin/env python3
"""setup_cmd: parses every specification module and builds the driver once (warms the Go build cache)."""
import glob, os, subprocess, sys
import check
def main():
    bad = 0
    for f in sorted(glob.glob(os.path.join(check.SPEC, "*.tla"))):
        p = subprocess.run(["tla-sany", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=check.SPEC)
        if p.returncode != 0 or "Semantic errors" in p.stdout or "Parse Error" in p.stdout:
            print(f, p.stdout[-1500:]); bad = 1
    c = check.Check("C03", "quick", 1)
    try:
        c.build()
    finally:
        c.close()
    print("setup", "failed" if bad else "ok")
    return bad
sys.exit(main())
