import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, os.path.join(os.path.dirname(here), "lib"), here]
import warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
try:
    import brel
except Exception as e:      # the tree does not even import: no verdict about the property
    print("ERROR: cannot import the code under test:", repr(e))
    sys.exit(2)
if not os.path.abspath(brel.__file__).startswith(os.path.abspath(REPO) + os.sep):
    print("ERROR: brel was imported from", brel.__file__)
    sys.exit(2)
import core
pid = sys.argv[1]
mod = importlib.import_module(pid)
sys.exit(core.main(pid, mod.SPEC, sys.argv[2:]))
