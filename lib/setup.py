"""Nothing is kept between runs: every check compiles what it needs.  Verifies that the tools are there."""
import shutil, sys
missing = [t for t in ('java', 'javac', 'gcc') if not shutil.which(t)]
if missing: sys.exit('missing: %s' % missing)
