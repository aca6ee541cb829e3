import importlib
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx import runner

prop = sys.argv[1]
m = importlib.import_module("checks." + prop.lower())
sys.exit(runner.main(prop, m.tasks, m.META))
