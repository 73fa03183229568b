#!/bin/bash
# Build the dumper and pre-compute the fact files (checks rebuild them themselves when the tree differs).
cd "$(dirname "$0")"
python3 - <<'P'
import sys; sys.path.insert(0,'lib')
import facts
facts.build_tool()
for u in ('d_core','d_utf','d_io','d_gencpp','d_debug','d_u16'):
    try: facts.dump(u)
    except facts.CheckError as e: print(u, str(e)[:300])
P
