"""C07: nothing derived from replaced data survives."""
from ._spec import *
from .c26 import jobs
from .c19 import jobs as pjobs

RULE = ('After the penalty parameter is changed and the solver notified, or '
        'the dictionary is replaced, the value graph of the next primal '
        'update is compared with the documented formula evaluated on the '
        'current parameter and data: any cached factor, transform or product '
        'that was not refreshed shows up as a stale symbol.')
METHS = {'xstep', 'eval_objfn', 'reconstruct'}


def run(rep):
    rep.rule = RULE
    run_jobs(rep, jobs(METHS, states=('rho', 'setdict', 'setcoef')) +
             pjobs({'grad_f', 'hessian_f', 'eval_objfn', 'reconstruct',
                    'obfn_f'}, states=('pgmdict', 'pgmcoef'),
                   pols=PGM_POLICIES[:1]))
    rep.floor('comparisons', 50)
