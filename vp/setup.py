"""nothing to build: the checks read /repo's current tree. Verifies that the tools are there."""
import shutil, sys
miss = [t for t in ('verus', 'dafny', 'python3') if not shutil.which(t)]
print('missing: ' + ', '.join(miss) if miss else 'ok'); sys.exit(1 if miss else 0)
