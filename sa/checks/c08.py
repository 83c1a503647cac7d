"""C08: adaptive penalty parameter."""
from ._spec import *
from .c26 import jobs

RULE = ('The state after the penalty update (parameter and every scaled '
        'dual variable) is compared with the documented residual balancing '
        'rule from an arbitrary iterate; the primal update that follows it '
        'is compared with the documented formula at the new parameter.')


def run(rep):
    rep.rule = RULE
    run_jobs(rep, jobs({'attr_rho'}) +
             jobs({'update_rho'}, states=('prerho',)) +
             jobs({'xstep'}, states=('autorho', 'autorho2')))
    rep.floor('comparisons', 50)
