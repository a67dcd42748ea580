"""C14: the parallel integrated solver: the same exact posterior and likelihood."""
from . import c12
from .c12 import ParallelIntegratedStateSpaceSolver

BOUNDS = ("any Gauss-Markov base process with its running integral: d=1 up to three data of one instrument, every matrix entry, exposure, gap, noise variance and datum symbolic; "
          "two or three instruments in every interleaving kind: state matrices rational numbers drawn from the seed, noises, data and times symbolic")
OUTSIDE = c12.OUTSIDE + "; the order of reductions on a GPU"
FN = ["solvers.integrated.parallel.solver.ParallelIntegratedStateSpaceSolver", "solvers.integrated.parallel.kalman.ParallelIntegratedKalmanFilter",
      "solvers.integrated.parallel.rts.ParallelIntegratedRTSSmoother", "gp.GaussianProcess.condition", "gp.ConditionedStates.project_at_data"]


def cases(tier):
    return c12.case_list(tier, ParallelIntegratedStateSpaceSolver, FN)
