"""setup_cmd: checks that interpreter, hypothesis and the DHParser in /repo are importable."""
import os, sys
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import hypothesis, regex, DHParser
print('hypothesis', hypothesis.__version__, 'DHParser', DHParser.__file__)
