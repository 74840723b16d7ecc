#!/usr/bin/env python3
"""setup_cmd: nothing to install; says which tools the checks rely on are present."""
import shutil, sys
missing = [t for t in ('mpicxx.openmpi', 'g++', 'mpirun.openmpi') if not shutil.which(t)]
print('missing tools: ' + ', '.join(missing) if missing else 'all tools present')
sys.exit(1 if missing else 0)
