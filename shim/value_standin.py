"""
`model_bounds.py` and `train_value.py` import two modules the repository no
longer contains: `value_to_optimization` (class ValueFunction) and
`adversarial_sample` (class AdversarialSampleGenerator).  install() supplies
stand-ins with the interface those files use; the harness subclasses them with
value functions it knows completely.  If the repository ever provides the real
modules, those are used instead.
"""
import importlib.util
import sys
import types

GENERATORS = []


class ValueFunction:
    """Stand-in: the base class of every value function."""


class AdversarialSampleGenerator:
    """Stand-in: delegates to the value function given by the harness."""

    def __init__(self, vf, x0_lo, x0_up, *args, **kw):
        self.vf, self.x0_lo, self.x0_up = vf, x0_lo, x0_up
        GENERATORS.append(self)

    def get_squared_bound_sample(self, model, max_iter=10, conv_tol=1e-5,
                                 learning_rate=.01, x_adv0=None):
        return self.vf.adversarial(self, model, dict(
            max_iter=max_iter, conv_tol=conv_tol,
            learning_rate=learning_rate, x_adv0=x_adv0))


def install():
    pkg = "neural_network_lyapunov"
    for name, cls in (("value_to_optimization", ValueFunction),
                      ("adversarial_sample", AdversarialSampleGenerator)):
        full = pkg + "." + name
        if full in sys.modules or importlib.util.find_spec(full) is not None:
            continue
        m = types.ModuleType(full)
        setattr(m, cls.__name__, cls)
        sys.modules[full] = m
        setattr(importlib.import_module(pkg), name, m)
