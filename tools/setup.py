"""Nothing to build: reports what the checks will run on."""
import os
import subprocess
import sys

py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
sys.exit(subprocess.call([py, '-B', '-c', 'import sys, numpy, scipy, cvxpy, matplotlib; '
                          'print(sys.version.split()[0], numpy.__version__, scipy.__version__, cvxpy.__version__, matplotlib.__version__)'],
                         env=dict(os.environ, MPLBACKEND='Agg')))
