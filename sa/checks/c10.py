"""C10: backtracking line search of the proximal gradient solvers."""
from ._spec import *
from .c19 import jobs

RULE = ('The state of the solver after the line search (iterate, '
        'extrapolation, step size, recorded F, Q and number of trials), '
        'unrolled for up to two trials from an arbitrary iterate, is '
        'compared with that of the documented search.')


def run(rep):
    rep.rule = RULE
    js = [j for j in jobs({'via_backtrack_update'}, pols=PGM_POLICIES[3:])
          if j[2] == 'sym' and '.ppp.' not in j[1]]
    run_jobs(rep, js)
    rep.floor('comparisons', 20)
