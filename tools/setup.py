#!/usr/bin/env python3
"""nothing to build ahead: every check builds from /repo's current tree; this only reports that the tools are there"""
import shutil, sys
missing = [t for t in ('verus', 'cargo', 'cargo-kani') if not shutil.which(t)]
print('missing: ' + ', '.join(missing) if missing else 'tools present')
