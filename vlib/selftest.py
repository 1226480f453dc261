"""setup_cmd: check that the oracle side works before any property is decided."""
import numpy as np


def main():
    import gem
    from vlib.gemeval import Evaluator  # noqa: F401
    from vlib import catalogue, geom, model  # noqa: F401
    i, j = gem.Index(extent=3), gem.Index(extent=2)
    A = np.arange(6.).reshape(3, 2)
    B = np.arange(2.) + 1
    e = gem.IndexSum(gem.Product(gem.Indexed(gem.Literal(A), (i, j)), gem.Indexed(gem.Literal(B), (j,))), (j,))
    from vlib import gemeval
    got = gemeval.geval(e, (i,))
    if not np.allclose(got, A @ B):
        print("GEM evaluator self test failed")
        return 2
    print("self test passed")
    return 0
