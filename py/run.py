import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymc
pid = sys.argv[1]
importlib.import_module(pid)
sys.exit(pymc.run(pid, sys.argv[2:]))
