#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: take the current change of /repo as a planted bug; demo.c comes from /tmp/demo.c,
needs/breaks from the command line; /repo is restored."""
import sys, os, json, subprocess
sid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.c", "w").write(open("/tmp/demo.c").read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the library behaves, nonzero when it does not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
gcc -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I. -I_build/mbus "$here/demo.c" mbus/mbus.c mbus/mbus-protocol.c mbus/mbus-protocol-aux.c mbus/mbus-serial.c mbus/mbus-tcp.c -lm -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 60 ./demo
''')
os.chmod(d + "/demo.sh", 0o755)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
