"""Regenerates sa/inventory.json: the reference inventory of functions (see sa/normalize.py)."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.project import Project
p = Project(normalize=False)
old = set(json.load(open(os.path.join(V, "sa", "inventory.json")))["functions"])
# functions of the original tree; of those added since, only the large ones of the ghost package are kept apart
fs = sorted(f for f in {f.qual for f in p.all_functions()} if f in old or ".ghost." in f)
json.dump({'functions': fs}, open(os.path.join(V, 'sa', 'inventory.json'), 'w'), indent=0)
print(len(fs))
