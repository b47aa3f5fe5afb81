"""setup_cmd: the analysis itself must import and hit its positive examples."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from absint import props
import importlib
for m in set(props.MODULE_OF.values()):
  mod = importlib.import_module('absint.groups.' + m)
  print(m, sorted(mod.GROUPS))
