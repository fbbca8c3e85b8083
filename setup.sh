#!/bin/bash
# builds the framework: the MIR driver, the dependencies of the crate under it, the replay crate
cd "$(dirname "$0")" || exit 2
python3-vt - <<'E'
import sys
sys.path.insert(0, '.')
import check
check.build_driver()
import os
check.dump_mir(os.path.join(check.BUILD, 'setup-mir'))
check.build_replay()
print('ready')
E
