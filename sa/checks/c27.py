"""C27: the reported objective function value and its components."""
from ._spec import *
from .c26 import jobs
from .c19 import jobs as pjobs

RULE = ('The value graph of the objective evaluation of each ADMM and '
        'proximal gradient solver class, in an arbitrary iterate, is compared with that of the '
        'documented functional (total and every component).')
METHS = {'eval_objfn', 'obfn_fvar', 'obfn_gvar', 'obfn_fvarf', 'obfn_g0var',
         'obfn_g1var', 'obfn_dfd'}


def run(rep):
    rep.rule = RULE
    run_jobs(rep, jobs(METHS) + pjobs(METHS | {'obfn_f'},
                                     pols=PGM_POLICIES[:1]))
    rep.floor('comparisons', 50)
