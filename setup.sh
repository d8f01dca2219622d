#!/bin/bash
# builds the MIR driver and warms the dependency builds; every check also does this on its own when needed
cd "$(dirname "$0")" && python3 -c "
from vp import dump
dump.ensure_driver()
for f in ('std_alloc', 'serde'): dump.dump(f)
"
