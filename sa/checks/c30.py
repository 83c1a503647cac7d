"""C30: image quality metrics, array layout and interpolation helpers."""
from ..fnspec import *

TABLE = 'metric'
RULE = ('The value graph of each quality metric, array layout and '
        'interpolation function is compared with that of its documented '
        'formula.')
M, I, R = 'sporco.metric.', 'sporco.interp.', 'sporco.array.'
X3 = A('a', 'b', 'c')
BOTH = [dict(_real=True), dict(_real=False)]


def flag(**kw):
    r = [{}]
    for k, vs in kw.items():
        r = [dict(x, **{k: v}) for x in r for v in vs]
    return r


TF = (True, False)
CONF = {
    M + 'mae': BOTH, M + 'mse': BOTH, M + 'snr': BOTH, M + 'isnr': BOTH,
    M + 'psnr': flag(rng=(None, '$rng')), M + 'pamse': flag(rescale=TF),
    M + 'gmsd': flag(rescale=TF, returnMap=TF),
    I + 'lanczos_kernel': [dict(a='$a')],
    I + 'interpolation_points': flag(N=('$N',), include_zero=TF),
    I + 'lanczos_filters': flag(sz=(5, (4,), (3, 6)), a=(2, 3),
                                collapse_axes=TF),
    I + 'lstabsdev': [dict(A=A('m', 'n'))],
    I + 'lstmaxdev': [dict(A=A('m', 'n'))],
    'sporco.prox._l1proj.proj_l1': flag(
        v=(X3,), gamma=('$gamma',), axis=(None,),
        method=(None, "'scalarroot")) + flag(
        v=(X3,), gamma=('$gamma',), axis=(0, 2, -1, (0, 1), (1, 2)),
        method=(None, "'sortcumsum")),
    'sporco.prox._l1proj._proj_l1_scalar_root': flag(
        v=(X3,), gamma=('$gamma',), _real=TF),
    R + 'zpad': flag(x=(X3,), ax=(0, 1, 2), pd=(('$p0', '$p1'),)),
    R + 'zdivide': BOTH,
    R + 'atleast_nd': flag(u=(X3,), n=(1, 3, 5)),
    R + 'split': [dict(u=A(*s), axis=k) for s, k in (
        ((2, 'b', 'c'), 0), (('a', 2, 'c'), 1), (('a', 'b', 2), 2),
        (('a', 'b', 2), -1), ((2, 'b', 'c'), -3))],
    R + 'promote16': [dict(fn=None)],
    R + 'rolling_window': flag(x=(A(7, 9),), wsz=((2, 3),), wnm=(
        None, (6, 7), (8, 7), (6, 10), (9, 9)), pad=("'wrap", "'reflect")),
    R + 'subsample_array': flag(x=(A(6, 9), A(7, 9), A(7, 8)), step=(
        (2, 3), (4, 2)), pad=TF, mode=("'reflect", "'wrap")),
    R + 'extract_blocks': flag(img=(A(7, 9), A(7, 9, 3)), blksz=(
        (2, 3), (4, 4)), stpsz=(None, (2, 1), (3, 2))) + [
            dict(img=A(7, 9, 3), blksz=(2, 3, 2), stpsz=s)
            for s in (None, (2, 2, 1))],
    R + 'average_blocks': [
        dict(blks=A(2, 3, 4), imgsz=(3, 4), stpsz=None),
        dict(blks=A(2, 3, 4), imgsz=(4, 5), stpsz=(2, 2)),
        dict(blks=A(2, 2, 4), imgsz=(5, 6), stpsz=(3, 4))],
    R + 'transpose_ntpl_list': [],
    'sporco.prox._util.ndto2d': flag(x=(X3,), axis=(0, 1, -1, (1,), (0, 1),
                                                    (1, 2), (0, 2), (-1, 0))),
    'sporco.prox._util.ndfrom2d': [dict(rsi=('$xts', '$prm'))],
    'sporco.prox._l1proj._proj_l1_sortsum': [
        dict(v=X3, gamma='$gamma', axis=k) for k in (0, 1, 2, -1)],
}


def run(rep):
    rep.rule = RULE
    run_conf(rep, jobs('c30', TABLE, CONF), 40)
