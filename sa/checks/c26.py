"""C26: the iteration steps of the ADMM solvers."""
from ._spec import *

RULE = ('The value graph of each iteration step (primal update, relaxation, '
        'auxiliary update, dual update, constraint operators and their '
        'adjoints) of each ADMM solver class, in an arbitrary iterate, is '
        'compared with the value graph of the documented formula.')
METHS = {'xstep', 'ystep', 'ustep', 'relax_AX', 'cnst_A', 'cnst_AT',
         'cnst_A0', 'cnst_A0T', 'cnst_A1', 'cnst_A1T', 'cnst_B', 'cnst_c',
         'cnst_c0', 'cnst_c1', 'block_sep0', 'block_sep1', 'block_cat',
         'GaussSeidelStep', 'attr_lcw', 'attr_Alpha', 'block_sep', 'prox_fi'}
CLASSES = [q for q in SOLVERS if q.startswith('sporco.admm.') and
           not q.endswith(('.MultiDictConvBPDN', '.AddMaskSim',
                           '.ParConvBPDN'))]
# classes for complex-valued data
COMPLEX = ('admm.cbpdn.', 'admm.tvl1.', 'admm.tvl2.')


def jobs(meths, classes=CLASSES, states=('iter',)):
    r = []
    for q in classes:
        for mode in modes(q):
            for real in (True, False):
                if not real and not any(c in q for c in COMPLEX):
                    continue
                for s in states:
                    r.append(('admm', q, mode, real, s, meths))
    return r


def run(rep):
    rep.rule = RULE
    run_jobs(rep, jobs(METHS))
    rep.floor('comparisons', 100)
