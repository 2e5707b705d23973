"""Nothing is built ahead (every check builds the tree it decides); this confirms that the tools are there."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import Cython  # noqa: F401
import dartsclone  # noqa: F401
import hypothesis
import sortedcontainers  # noqa: F401
import vh.core  # noqa: F401
print('hypothesis', hypothesis.__version__, 'python', sys.version.split()[0])
