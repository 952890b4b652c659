#!/bin/bash
# Nothing is installed: checks that the front end and the harness build.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
d=$(mktemp -d /tmp/amtsetup.XXXXXX)
python3-vt - "$d" <<'P'
import sys
from amtv import gobuild
d = sys.argv[1]
gobuild.dump(gobuild.build_dumper(d + '/ssadump'), '/repo', d + '/ssa.json')
b, err = gobuild.build_harness(d)
print('front end ok; harness', 'ok' if b else err[:400])
P
rm -rf "$d"
