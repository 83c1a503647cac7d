"""C28: residuals and stopping tolerances."""
from ._spec import *
from .c26 import jobs
from .c19 import jobs as pjobs

RULE = ('The value graphs of the primal and dual residuals, their '
        'normalisation factors and the combined residual/tolerance tuple of '
        'each ADMM and proximal gradient solver class are compared with the documented formulas.')
METHS = {'rsdl_r', 'rsdl_s', 'rsdl_rn', 'rsdl_sn', 'compute_residuals'}


def run(rep):
    rep.rule = RULE
    run_jobs(rep, jobs(METHS) + pjobs({'rsdl', 'compute_residuals'},
                                     pols=PGM_POLICIES[:1]))
    rep.floor('comparisons', 50)
