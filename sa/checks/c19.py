"""C19: the steps of the proximal gradient solvers."""
from ._spec import *

RULE = ('The value graphs of the gradient, Hessian product, proximal map, '
        'gradient step, momentum extrapolation, step size rule and '
        'start-of-iteration bookkeeping of each proximal gradient solver, in '
        'an arbitrary iterate and for every momentum and step size policy, '
        'are compared with the documented formulas.')
METHS = {'xstep', 'ystep', 'grad_f', 'hessian_f', 'prox_g',
         'on_iteration_start', 'eval_Dxy', 'eval_linear_approx', 'var_x',
         'var_y', 'var_xprv'}
CLASSES = [q for q in SOLVERS if q.startswith('sporco.pgm.')]


def jobs(meths, states=('pgm',), pols=PGM_POLICIES):
    return [('pgm', q, mode, True, '%s:%s' % (s, p) if mode != 'none' else s,
             meths) for q in CLASSES for s in states
            for mode in modes(q) for p in pols
            if mode == 'sym' or p is pols[0]]


def run(rep):
    rep.rule = RULE
    run_jobs(rep, jobs(METHS))
    rep.floor('comparisons', 100)
