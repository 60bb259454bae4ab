#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--case NAME]: build what the property's check needs from /repo's working
tree, run the exploration, exit 0 (held), 1 (VIOLATION line printed) or 2 (no answer)."""
import os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
from checks import CHECKS


def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    driver, variant = CHECKS[prop]
    env = dict(os.environ, VERIF_DIR=VERIF)
    r = subprocess.run([sys.executable, VERIF + "/tools/build.py", "--variant", variant, driver], env=env)
    if r.returncode != 0:
        print("build failed", file=sys.stderr)
        return 2
    ev = VERIF + "/evidence/" + prop + ".json"
    if os.path.exists(ev) and "--case" not in rest:
        os.remove(ev)
    r = subprocess.run([VERIF + "/.build/" + variant + "/" + driver, "--prop", prop] + rest, env=env)
    return r.returncode if r.returncode in (0, 1) else 2


sys.exit(main())
