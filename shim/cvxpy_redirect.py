"""Redirect cvxpy's solver="GUROBI" to an installed solver."""


def install():
    import cvxpy as cp
    if getattr(cp.Problem, "_verif_redirect", False):
        return
    orig = cp.Problem.solve

    def solve(self, *args, **kwargs):
        s = kwargs.get("solver")
        if isinstance(s, str) and s.upper() == "GUROBI":
            if self.is_mixed_integer():
                kwargs["solver"] = "HIGHS"
            elif self.is_lp():
                kwargs["solver"] = "HIGHS"
            else:
                kwargs["solver"] = "CLARABEL"
        return orig(self, *args, **kwargs)

    cp.Problem.solve = solve
    cp.Problem._verif_redirect = True
