"""C29: results returned to the user."""
from ._spec import *
from .c26 import jobs
from .c19 import jobs as pjobs

RULE = ('The value graphs of the accessors through which a solver returns '
        'its results (minimiser, dictionary, coefficients, reconstruction, '
        'primal, auxiliary and dual variables), in an arbitrary iterate and '
        'after the data have been replaced, are compared with the documented '
        'values.')
METHS = {'getmin', 'getdict', 'getcoef', 'reconstruct', 'var_x', 'var_y',
         'var_u', 'var_y0', 'var_y1', 'itstat_extra'}


def run(rep):
    rep.rule = RULE
    run_jobs(rep, jobs(METHS, states=('iter', 'setdict', 'setcoef')) +
             pjobs(METHS, states=('pgm', 'pgmdict', 'pgmcoef'),
                   pols=PGM_POLICIES[:1]))
    rep.floor('comparisons', 50)
