"""Numerical kernels kept as named operators when solver code is analysed.
Anything not listed here (helpers, wrappers, new functions) is inlined."""

KERNELS = set('sporco.' + x for x in '''
linalg.solvedbi_sm linalg.solvedbi_sm_c linalg.solvedbd_sm
linalg.solvedbd_sm_c linalg.solvemdbi_ism linalg.solvemdbi_rsm
linalg.solvemdbi_cg linalg.lu_factor linalg.lu_solve_ATAI
linalg.lu_solve_AATI linalg.cho_factor linalg.cho_solve_ATAI
linalg.cho_solve_AATI linalg.solve_symmetric_sylvester linalg.rrs linalg.pca
linalg.nkp linalg.kpsvd linalg.proj_l2ball linalg.valid_adjoint
linalg.block_circulant linalg.dot
cnvrep.stdformD cnvrep.l1Wshape cnvrep.mskWshape cnvrep.zeromean
cnvrep.normalise cnvrep.zpad cnvrep.bcrop
signal.complex_randn signal.spnoise signal.rndmask signal.rgb2gray
signal.grad signal.gradT signal.gradient_filters signal.tikhonov_filter
signal.gaussian signal.local_contrast_normalise
array.zpad array.zdivide array.atleast_nd
array.split array.rolling_window array.subsample_array array.extract_blocks
array.average_blocks array.combine_blocks array.ntpl2array array.array2ntpl
array.transpose_ntpl_list
util.idle_cpu_count util.grid_search util.netgetdata util.in_ipython
util.in_notebook util.notebook_system_output util.tiledict util.convdicts
fft.complex_dtype fft.real_dtype fft.byte_aligned fft.empty_aligned
fft.rfftn_empty_aligned fft.fftn fft.ifftn fft.rfftn fft.irfftn fft.dctii
fft.idctii fft.fftconv fft.fl2norm2 fft.rfl2norm2
interp.bilinear_demosaic interp.lstabsdev interp.lstmaxdev
interp.lanczos_kernel interp.interpolation_points interp.lanczos_filters
metric.mae metric.mse metric.snr metric.psnr metric.isnr metric.bsnr
metric.pamse metric.gmsd
common.solve_status_str common._fix_nested_class_lookup
common._fix_dynamic_class_lookup
prox._dl1l2.norm_dl1l2 prox._dl1l2.prox_dl1l2 prox._l1proj.proj_l1
prox._l21.norm_l21 prox._l21.prox_sl1l2 prox._lp.norm_l0 prox._lp.prox_l0
prox._lp.norm_l1 prox._lp.prox_l1 prox._lp.norm_2l2 prox._lp.norm_l2
prox._lp.prox_l2 prox._lp.proj_l2 prox._nuclear.norm_nuclear
prox._nuclear.prox_nuclear prox._util.ndto2d prox._util.ndfrom2d
mpiutil.grid_search'''.split())

# modules that never belong to the numerical core
NEVER = ('sporco.plot', 'sporco.cupy', 'sporco.cuda')

# interpreted numpy-level operators (true meaning known to the comparison)
INTERPRETED = set('''np.abs np.conj np.real np.imag np.sign np.exp np.log
max2 min2 select np.sum np.max np.min np.prod np.mean np.reshape
np.transpose np.swapaxes np.moveaxis np.squeeze np.expand_dims np.ravel
np.flatten sub item attr np.dot np.matmul np.zeros np.ones np.empty
np.zeros_like np.ones_like np.concatenate np.stack upd dict call
np.array np.dtype np.linalg.norm np.roll np.pad np.cumsum np.sort np.diff
range len fold last comp np.linalg.svd kind np.where truth isnone slice
floordiv undefined-name mod np.mod isinstance hasattr np.any np.all band bor
np.tile np.eye np.diag np.take np.newaxis np.median np.std np.var
np.sqrt np.floor np.ceil np.round np.arange np.outer
'''.split())

SCALAR_SYMS = set('''rho lmbda mu alpha beta gamma epsilon rlx L tau k r s
eps self.rho self.mu self.lmbda self.rlx self.k self.L self.t dimK dimN
axis axes nproc ngrp self.rho_tau self.rho_mu self.rho_xi opt[rho]
opt[RelaxParam] opt[L] blkaxis blkidx isn tol mit radius Nb t x0 k0'''.split())
POSITIVE = set('''rho lmbda mu alpha beta gamma epsilon rlx L tau self.rho
self.mu self.lmbda self.rlx self.L eps self.rho_tau self.rho_mu self.rho_xi
opt[rho] opt[RelaxParam] opt[L] self.t'''.split())


def is_scalar(n):
    return n in SCALAR_SYMS or n.startswith('opt[') and \
        not n.rstrip(']').endswith(('Weight', '0')) or \
        n.startswith(('obj:', 'class:', 'fn:', 'mod:'))


def is_positive(n):
    return n in POSITIVE


REALSYMS = set('''alpha beta gamma eps wl1 wl21 W Wl1 Wtv Wts Wdf mu lmbda
GHGf GHG Wtvna axis w d'''.split())


def is_complex(n):
    """may the array take complex values when the data are complex?"""
    if is_scalar(n) or is_positive(n):
        return False
    m = n.rstrip(']').split('[')[-1].split('.')[-1]
    return m not in REALSYMS and not m.endswith('Weight')


# public functions of array arguments; other functions are internal and
# are analysed where they are called
PUBLIC = set('sporco.' + x for x in '''
admm.cmod.getPcn admm.cmod.normalise admm.cmod.zeromean array.array2ntpl
array.atleast_nd array.average_blocks array.combine_blocks
array.extract_blocks array.ntpl2array array.promote16 array.rolling_window
array.split array.subsample_array array.transpose_ntpl_list array.zdivide
array.zpad cnvrep.Pcn cnvrep.bcrop cnvrep.getPcn cnvrep.l1Wshape
cnvrep.mskWshape cnvrep.normalise cnvrep.stdformD cnvrep.zeromean
cnvrep.zpad dictlrn.prlcnscdl.swap_axis_to_0 fft.byte_aligned
fft.complex_dtype fft.dctii fft.empty_aligned fft.empty_aligned_func
fft.fftconv fft.fftn fft.fftn_func fft.fl2norm2 fft.fl2norm2_func fft.idctii
fft.ifftn fft.ifftn_func fft.irfftn fft.is_complex_dtype fft.real_dtype
fft.rfftn fft.rfftn_empty_aligned fft.rfl2norm2 interp.bilinear_demosaic
interp.interpolation_points interp.lanczos_filters interp.lanczos_kernel
interp.lstabsdev interp.lstmaxdev linalg.block_circulant linalg.cho_factor
linalg.cho_solve_AATI linalg.cho_solve_ATAI linalg.dot linalg.inner
linalg.kpsvd linalg.lu_factor linalg.lu_solve_AATI linalg.lu_solve_ATAI
linalg.nkp linalg.pca linalg.proj_l2ball linalg.rrs
linalg.solve_symmetric_sylvester linalg.solvedbd_sm linalg.solvedbd_sm_c
linalg.solvedbi_sm linalg.solvedbi_sm_c linalg.solvemdbi_cg
linalg.solvemdbi_ism linalg.solvemdbi_rsm linalg.valid_adjoint metric.bsnr
metric.gmsd metric.isnr metric.mae metric.mse metric.pamse metric.psnr
metric.snr pgm.cmod.getPcn pgm.cmod.normalise pgm.cmod.zeromean
prox._dl1l2.norm_dl1l2 prox._dl1l2.prox_dl1l2 prox._l1proj.proj_l1
prox._l21.norm_l21 prox._l21.prox_sl1l2 prox._lp.norm_2l2 prox._lp.norm_l0
prox._lp.norm_l1 prox._lp.norm_l2 prox._lp.proj_l2 prox._lp.prox_l0
prox._lp.prox_l1 prox._lp.prox_l2 prox._nuclear.norm_nuclear
prox._nuclear.prox_nuclear prox._util.ndfrom2d prox._util.ndto2d
signal.complex_randn signal.gaussian signal.grad signal.gradT
signal.gradient_filters signal.local_contrast_normalise signal.rgb2gray
signal.rndmask signal.spnoise signal.tikhonov_filter util.array2ntpl
util.average_blocks util.combine_blocks util.convdicts util.extract_blocks
util.grid_search util.idle_cpu_count util.in_ipython util.in_notebook
util.netgetdata util.notebook_system_output util.ntpl2array
util.rolling_window util.subsample_array util.tiledict
util.transpose_ntpl_list util.u'''.split())


# public methods of solver classes
METHODS = set('''
GaussSeidelStep LaplaceCentreWeight block_cat block_sep block_sep0
block_sep1 cnst_A cnst_A0 cnst_A0T cnst_A1 cnst_A1T cnst_AT cnst_B cnst_c
cnst_c0 cnst_c1 compute_residuals display_config distribute dstep eval_Dxy
eval_Rf eval_linear_approx eval_objfn evaluate f getcoef getdict getitstat
getmin grad_f gradf hdrtxt hdrval hessian_f index_addmsk index_primary
init_pool init_vars iteration_stats itstat_extra itstat_fields manage_itstat
obfn_cns obfn_dfd obfn_f obfn_fi obfn_fvar obfn_fvarf obfn_g obfn_g0
obfn_g0var obfn_g1 obfn_g1var obfn_gvar obfn_reg on_iteration_start
post_dstep post_xstep prox_fi prox_g proxf proxg reconstruct relax_AX
rhochange rsdl rsdl_r rsdl_rn rsdl_s rsdl_sn set_attr set_dtype setcoef
setdict solve step swapaxes terminate_pool uinit update_rho ustep
var_momentum var_u var_x var_xprv var_y var_y0 var_y1 var_yx var_yx_idx
xinit xistep xstep xstep_check yinit ystep'''.split())
