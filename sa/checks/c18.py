"""C18: direct solvers of the structured linear systems."""
from ..fnspec import *
from ..models import opaque_ext

TABLE = 'linalg'
RULE = ('The value graph of each linear-system solver (numexpr and numpy '
        'variants, tall and wide matrices, cached and uncached factors) is '
        'compared with that of the documented solution formula.')
L = 'sporco.linalg.'
REAL = False     # complex arrays
OPAQUE = {L + 'inner'}
GLOBS = [('sporco.linalg', 'have_numexpr', VT(sym('have_numexpr')))]
MAT = dict(A=A('N', 'M'), rho='$rho')
SM = [dict(axis='$axis', rho='$rho', c='arr'),
      dict(axis='$axis', rho='$rho', c=None)]
CONF = {
    L + 'inner': [dict(x=A('a', 'b', 'c'), y=A('a', 'b', 'c'), axis=i,
                       _models={L + 'inner': None})
                  for i in (0, 1, 2, -1, -3)],
    L + 'solvedbi_sm': SM, L + 'solvedbd_sm': SM,
    L + 'solvedbi_sm_c': SM[:1], L + 'solvedbd_sm_c': SM[:1],
    L + 'solvemdbi_ism': [
        dict(ah=A('n0', 'n1', 'c', k, 'm'), b=A('n0', 'n1', 1, 1, 'm'),
             rho='$rho', axisM=m, axisK=x)
        for k in (1, 2, 3) for m, x in ((4, 3), (-1, -2))],
    L + 'dot': [dict(a=A('p', 'q'), b=A(*s), axis=x) for s, x in (
        (('q', 'u', 'v'), 0), (('u', 'q', 'v'), 1), (('u', 'q', 'v'), -2),
        (('u', 'v', 'q'), 2), (('u', 'v', 'q'), -1))],
    L + 'solvemdbi_cg': [dict(rho='$rho', axisM='$axisM', axisK='$axisK',
                              tol='$tol', mit='$mit', isn=i)
                         for i in (None, 'arr')],
    L + 'solvemdbi_rsm': [
        dict(ah=A('n0', 'n1', 'c', k, 'm'), b=A('n0', 'n1', 'c', 1, 'm'),
             rho='$rho', axisK=3, dimN=2) for k in (1, 2, 3)],
    L + 'lu_factor': [MAT], L + 'cho_factor': [dict(MAT, lower='$lower')],
    L + 'lu_solve_ATAI': [MAT], L + 'lu_solve_AATI': [MAT],
    L + 'cho_solve_ATAI': [dict(MAT, lwr='$lwr')],
    L + 'cho_solve_AATI': [dict(MAT, lwr='$lwr')],
    L + 'nkp': [dict(A=A(6, 8), bshape=(2, 4), cshape=(3, 2)),
                dict(A=A(6, 6), bshape=(3, 2), cshape=(2, 3))],
    L + 'kpsvd': [dict(A=A(6, 8), bshape=(2, 4), cshape=(3, 2)),
                  dict(A=A(6, 6), bshape=(3, 2), cshape=(2, 3))],
    L + 'block_circulant': [dict(A=(A(2, 3),) * k) for k in (1, 2, 3, 4)],
    L + 'pca': [dict(centre=True), dict(centre=False)],
    L + 'solve_symmetric_sylvester': [
        dict(A=a, B=b, alpha='$alpha', C=A(3, 2))
        for a in (A(3, 3), (A(3), A(3, 3)))
        for b in (A(2, 2), (A(2), A(2, 2)))],
}


def lu_solve(it, name, args, kwargs, st, node):
    """the factored matrices are symmetric: no matter if transposed"""
    if len(args) == 3 and it.term(args[2], st) in (const(0), const(1)):
        return VT(opaque_ext(it, name, args[:2], kwargs, st, node))
    return NotImplemented


MODELS = {'ext:scipy.linalg.lu_solve': lu_solve}


def run(rep):
    rep.rule = RULE
    run_conf(rep, jobs('c18', TABLE, CONF), 20)
