#!/bin/bash
# Run a check and show what each configuration and replay cost.
cd "$(dirname "$0")/.." && bin/check "$@"; rc=$?
python3 - "$1" <<'P'
import json, sys
d = json.load(open(f'evidence/{sys.argv[1]}.json'))['coverage']
for x in d['configurations']: print('  tlc', x['seconds'], x['distinct'], x['what'][:150])
for x in d.get('replays', []): print('  replay', x)
P
exit $rc
