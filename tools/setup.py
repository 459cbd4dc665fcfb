"""Nothing to compile: verify that the interpreter and the stand-in load."""
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import vlib  # noqa: E402,F401
import gurobipy as gp  # noqa: E402

m = gp.Model()
v = m.addVar(lb=0, ub=2, vtype=gp.GRB.BINARY)
w = m.addVar(lb=-1, ub=2)
m.addLConstr(gp.LinExpr([1., 1.], [v, w]), gp.GRB.LESS_EQUAL, 1.5)
m.setObjective(gp.LinExpr([2., 1.], [v, w]), gp.GRB.MAXIMIZE)
m.optimize()
assert m.status == gp.GRB.OPTIMAL and abs(m.objVal - 2.5) < 1e-9
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
print("setup ok")
