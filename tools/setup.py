"""Nothing to compile: the monitors are Python and import /repo directly.

Only checks that the interpreter and the libraries the checks need are there.
"""
import subprocess
subprocess.run(['/opt/venv/bin/python', '-c',
                'import numpy, scipy, skimage, matplotlib, numba, '
                'networkx, pandas'], check=True)
print('ok')
