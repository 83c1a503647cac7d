"""Documented call forms: parameters in order; `?` optional, `=expr` optional with
the documented default."""
CALLS = {
    'admm.admm.ADMM.Options.__init__':
        'opt=None',
    'admm.admm.ADMM.__init__':
        'Nx yshape ushape dtype opt?',
    'admm.admm.ADMMConsensus.Options.__init__':
        'opt=None',
    'admm.admm.ADMMConsensus.__init__':
        'Nb yshape dtype opt?',
    'admm.admm.ADMMEqual.Options.__init__':
        'opt=None',
    'admm.admm.ADMMEqual.__init__':
        'xshape dtype opt?',
    'admm.admm.ADMMTwoBlockCnstrnt.Options.__init__':
        'opt=None',
    'admm.admm.ADMMTwoBlockCnstrnt.__init__':
        'Nx yshape blkaxis blkidx dtype opt?',
    'admm.admm.WeightedADMMConsensus.Options.__init__':
        'opt=None',
    'admm.admm.WeightedADMMConsensus.__init__':
        'Nb alpha yshape dtype opt?',
    'admm.bpdn.BPDN.Options.__init__':
        'opt=None',
    'admm.bpdn.BPDN.__init__':
        'D S lmbda? opt?',
    'admm.bpdn.BPDNJoint.__init__':
        'D S lmbda? mu? opt?',
    'admm.bpdn.BPDNProjL1.Options.__init__':
        'opt=None',
    'admm.bpdn.BPDNProjL1.__init__':
        'D S gamma opt?',
    'admm.bpdn.ElasticNet.__init__':
        'D S lmbda? mu? opt?',
    'admm.bpdn.GenericBPDN.Options.__init__':
        'opt=None',
    'admm.bpdn.GenericBPDN.__init__':
        'D S opt?',
    'admm.bpdn.MinL1InL2Ball.Options.__init__':
        'opt=None',
    'admm.bpdn.MinL1InL2Ball.__init__':
        'D S epsilon opt?',
    'admm.cbpdn.AddMaskSim.__init__':
        'cbpdnclass D S W',
    'admm.cbpdn.ConvBPDN.Options.__init__':
        'opt=None',
    'admm.cbpdn.ConvBPDN.__init__':
        'D S lmbda? opt? dimK=None dimN=2',
    'admm.cbpdn.ConvBPDNGradReg.Options.__init__':
        'opt=None',
    'admm.cbpdn.ConvBPDNGradReg.__init__':
        'D S lmbda? mu? opt? dimK=None dimN=2',
    'admm.cbpdn.ConvBPDNJoint.Options.__init__':
        'opt=None',
    'admm.cbpdn.ConvBPDNJoint.__init__':
        'D S lmbda? mu? opt? dimK=None dimN=2',
    'admm.cbpdn.ConvBPDNMaskDcpl.Options.__init__':
        'opt=None',
    'admm.cbpdn.ConvBPDNMaskDcpl.__init__':
        'D S lmbda W? opt? dimK=None dimN=2',
    'admm.cbpdn.ConvBPDNProjL1.Options.__init__':
        'opt=None',
    'admm.cbpdn.ConvBPDNProjL1.__init__':
        'D S gamma opt? dimK=None dimN=2',
    'admm.cbpdn.ConvElasticNet.__init__':
        'D S lmbda? mu? opt? dimK=None dimN=2',
    'admm.cbpdn.ConvL1L1Grd.Options.__init__':
        'opt=None',
    'admm.cbpdn.ConvL1L1Grd.__init__':
        'D S lmbda mu W? opt? dimK=None dimN=2',
    'admm.cbpdn.ConvMinL1InL2Ball.Options.__init__':
        'opt=None',
    'admm.cbpdn.ConvMinL1InL2Ball.__init__':
        'D S epsilon opt? dimK=None dimN=2',
    'admm.cbpdn.ConvTwoBlockCnstrnt.Options.__init__':
        'opt=None',
    'admm.cbpdn.ConvTwoBlockCnstrnt.__init__':
        'D S opt? dimK=None dimN=2',
    'admm.cbpdn.GenericConvBPDN.Options.__init__':
        'opt=None',
    'admm.cbpdn.GenericConvBPDN.__init__':
        'D S opt? dimK=None dimN=2',
    'admm.cbpdn.MultiDictConvBPDN.__init__':
        'cbpdnclass D S',
    'admm.cbpdnin.ConvBPDNInhib.Options.__init__':
        'opt=None',
    'admm.cbpdnin.ConvBPDNInhib.__init__':
        'D S Wg? Whn? win_args? lmbda? mu? gamma? opt? dimK=None dimN=2',
    'admm.cbpdntv.ConvBPDNRecTV.Options.__init__':
        'opt=None',
    'admm.cbpdntv.ConvBPDNRecTV.__init__':
        'D S lmbda mu? opt? dimK=None dimN=2',
    'admm.cbpdntv.ConvBPDNScalarTV.Options.__init__':
        'opt=None',
    'admm.cbpdntv.ConvBPDNScalarTV.__init__':
        'D S lmbda mu? opt? dimK=None dimN=2',
    'admm.cbpdntv.ConvBPDNVectorTV.__init__':
        'D S lmbda mu? opt? dimK=None dimN=2',
    'admm.ccmod.ConvCnstrMODBase.Options.__init__':
        'opt=None',
    'admm.ccmod.ConvCnstrMODBase.__init__':
        'Z S dsz opt? dimK=1 dimN=2',
    'admm.ccmod.ConvCnstrMOD_CG.Options.__init__':
        'opt=None',
    'admm.ccmod.ConvCnstrMOD_Consensus.Options.__init__':
        'opt=None',
    'admm.ccmod.ConvCnstrMOD_IterSM.Options.__init__':
        'opt=None',
    'admm.ccmodmd.ConvCnstrMODMaskDcplBase.Options.__init__':
        'opt=None',
    'admm.ccmodmd.ConvCnstrMODMaskDcplBase.__init__':
        'Z S W dsz opt? dimK=None dimN=2',
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_CG.Options.__init__':
        'opt=None',
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus.__init__':
        'Z S W dsz opt? dimK=None dimN=2',
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_IterSM.Options.__init__':
        'opt=None',
    'admm.cmod.CnstrMOD.Options.__init__':
        'opt=None',
    'admm.cmod.CnstrMOD.__init__':
        'Z S dsz? opt?',
    'admm.cmod.getPcn':
        'zm',
    'admm.cmod.normalise':
        'v',
    'admm.cmod.zeromean':
        'v',
    'admm.parcbpdn.ParConvBPDN.Options.__init__':
        'opt=None',
    'admm.parcbpdn.ParConvBPDN.__init__':
        'D S lmbda? W? opt? nproc? ngrp? dimK=None dimN=2',
    'admm.parcbpdn.ParConvBPDN.distribute':
        'f n',
    'admm.parcbpdn.init_mpraw':
        'mpv npv',
    'admm.parcbpdn.mpraw_as_np':
        'shape dtype',
    'admm.parcbpdn.par_compute_residuals':
        'i',
    'admm.parcbpdn.par_final_stepgrp':
        'i',
    'admm.parcbpdn.par_initial_stepgrp':
        'i',
    'admm.parcbpdn.par_stepgrp':
        'i',
    'admm.parcbpdn.par_u0step':
        'i',
    'admm.parcbpdn.par_u1step':
        'i',
    'admm.parcbpdn.par_xstep':
        'i',
    'admm.parcbpdn.par_y0bstep':
        'i',
    'admm.parcbpdn.par_y1step':
        'i',
    'admm.pdcsc.ConvProdDictBPDN.__init__':
        'D B S lmbda opt? dimK=None dimN=2',
    'admm.pdcsc.ConvProdDictBPDNJoint.__init__':
        'D B S lmbda mu? opt? dimK=None dimN=2',
    'admm.pdcsc.ConvProdDictL1L1Grd.__init__':
        'D B S lmbda mu W? opt? dimK=0 dimN=2',
    'admm.pdcsc.ConvProdDictL1L1GrdJoint.__init__':
        'D B S lmbda mu? W? opt? dimK=None dimN=2',
    'admm.ppp.GenericPPP.__init__':
        'xshape opt?',
    'admm.ppp.GenericPPPConsensus.__init__':
        'xshape Nb mu? opt?',
    'admm.ppp.PPP.__init__':
        'xshape f proxf proxg opt?',
    'admm.ppp.PPPConsensus.__init__':
        'xshape proxfi proxg? mu? opt?',
    'admm.rpca.RobustPCA.Options.__init__':
        'opt=None',
    'admm.rpca.RobustPCA.__init__':
        'S lmbda? opt?',
    'admm.spline.SplineL1.Options.__init__':
        'opt=None',
    'admm.spline.SplineL1.__init__':
        'S lmbda opt? axes?',
    'admm.tvl1.TVL1Deconv.Options.__init__':
        'opt=None',
    'admm.tvl1.TVL1Deconv.__init__':
        'A S lmbda opt? axes=(0,1) caxis=None',
    'admm.tvl1.TVL1Denoise.Options.__init__':
        'opt=None',
    'admm.tvl1.TVL1Denoise.__init__':
        'S lmbda opt? axes=(0,1) caxis=None',
    'admm.tvl2.TVL2Deconv.Options.__init__':
        'opt=None',
    'admm.tvl2.TVL2Deconv.__init__':
        'A S lmbda opt? axes=(0,1) caxis=None',
    'admm.tvl2.TVL2Denoise.Options.__init__':
        'opt=None',
    'admm.tvl2.TVL2Denoise.__init__':
        'S lmbda opt? axes=(0,1) caxis=None',
    'array.array2ntpl':
        'arr',
    'array.atleast_nd':
        'n u',
    'array.average_blocks':
        'blks imgsz stpsz?',
    'array.combine_blocks':
        'blks imgsz stpsz? fn?',
    'array.extract_blocks':
        'img blksz stpsz?',
    'array.ntpl2array':
        'ntpl',
    'array.promote16':
        'u fn=None',
    'array.rolling_window':
        "x wsz wnm=None pad='wrap'",
    'array.split':
        'u axis=0',
    'array.subsample_array':
        "x step pad=False mode='reflect'",
    'array.transpose_ntpl_list':
        'lst',
    'array.zdivide':
        'x y',
    'array.zpad':
        'x pd ax',
    'cdict.ConstrainedDict.__init__':
        'd? pth?',
    'cdict.ConstrainedDict.check':
        'key value',
    'cdict.ConstrainedDict.getnode':
        'd pth',
    'cdict.ConstrainedDict.getparent':
        'd pth',
    'cdict.ConstrainedDict.setdefault':
        'key default?',
    'cdict.ConstrainedDict.update':
        'd',
    'cdict.keycmp':
        'a b pth?',
    'cnvrep.CDU_ConvRepIndexing.__init__':
        'dsz S dimK=None dimN=2',
    'cnvrep.CSC_ConvRepIndexing.__init__':
        'D S dimK=None dimN=2',
    'cnvrep.DictionarySize.__init__':
        'dsz dimN=2',
    'cnvrep.Pcn':
        'x dsz Nv dimN=2 dimC=1 crp=False zm=False',
    'cnvrep.bcrop':
        'v dsz dimN=2',
    'cnvrep.getPcn':
        'dsz Nv dimN=2 dimC=1 crp=False zm=False',
    'cnvrep.l1Wshape':
        'W cri',
    'cnvrep.mskWshape':
        'W cri',
    'cnvrep.normalise':
        'v dimN=2',
    'cnvrep.stdformD':
        'D Cd M dimN=2',
    'cnvrep.zeromean':
        'v dsz dimN=2',
    'cnvrep.zpad':
        'v Nv',
    'common.IterativeSolver.set_attr':
        'name val dval? dtype=None reset=False',
    'common.IterativeSolver.set_dtype':
        'opt dtype',
    'common.solve_status_str':
        'hdrlbl fmtmap=None fwdth0=4 fwdthdlt=6 fprec=2',
    'dictlrn.bpdndl.BPDNDictLearn.Options.__init__':
        'opt=None',
    'dictlrn.bpdndl.BPDNDictLearn.__init__':
        'D0 S lmbda? opt?',
    'dictlrn.cbpdndl.ConvBPDNDictLearn.__init__':
        'D0 S lmbda? opt? xmethod? dmethod? dimK=1 dimN=2',
    'dictlrn.cbpdndlmd.ConvBPDNMaskDictLearn.__init__':
        'D0 S lmbda W opt? xmethod? dmethod? dimK=1 dimN=2',
    'dictlrn.dictlrn.DictLearn.Options.__init__':
        'opt=None',
    'dictlrn.dictlrn.DictLearn.__init__':
        'xstep dstep opt? isc?',
    'dictlrn.dictlrn.IterStatsConfig.__init__':
        'isfld isxmap isdmap evlmap hdrtxt hdrmap fmtmap=None',
    'dictlrn.dictlrn.IterStatsConfig.iterstats':
        'j t isx isd evl',
    'dictlrn.dictlrn.IterStatsConfig.printiterstats':
        'itst',
    'dictlrn.onlinecdl.OnlineConvBPDNDictLearn.Options.__init__':
        'opt=None',
    'dictlrn.onlinecdl.OnlineConvBPDNDictLearn.__init__':
        'D0 lmbda? opt? dimK=None dimN=2',
    'dictlrn.onlinecdl.OnlineConvBPDNMaskDictLearn.Options.__init__':
        'opt=None',
    'dictlrn.prlcnscdl.ConvBPDNDictLearn_Consensus.Options.__init__':
        'opt=None',
    'dictlrn.prlcnscdl.ConvBPDNDictLearn_Consensus.__init__':
        'D0 S lmbda? opt? nproc? dimK=1 dimN=2',
    'dictlrn.prlcnscdl.ConvBPDNMaskDcplDictLearn_Consensus.Options.__init__':
        'opt=None',
    'dictlrn.prlcnscdl.ConvBPDNMaskDcplDictLearn_Consensus.__init__':
        'D0 S lmbda? W? opt? nproc? dimK=1 dimN=2',
    'dictlrn.prlcnscdl.init_mpraw':
        'mpv npv',
    'dictlrn.prlcnscdl.mpraw_as_np':
        'shape dtype',
    'dictlrn.prlcnscdl.swap_axis_to_0':
        'x axis',
    'dictlrn.wbpdndl.WeightedBPDNDictLearn.Options.__init__':
        'opt=None',
    'dictlrn.wbpdndl.WeightedBPDNDictLearn.__init__':
        'D0 S lmbda? W? opt?',
    'fft.byte_aligned':
        'array dtype=None n=None',
    'fft.complex_dtype':
        'dtype',
    'fft.dctii':
        'x axes=None',
    'fft.empty_aligned':
        "shape dtype order='C' n=None",
    'fft.empty_aligned_func':
        'real=False',
    'fft.fftconv':
        'a b axes=None origin=None',
    'fft.fftn':
        'a s=None axes=None',
    'fft.fftn_func':
        'real=False',
    'fft.fl2norm2':
        'xf axis=(0,1)',
    'fft.fl2norm2_func':
        'real=False',
    'fft.idctii':
        'x axes=None',
    'fft.ifftn':
        'a s=None axes=None',
    'fft.ifftn_func':
        'real=False',
    'fft.irfftn':
        'a s axes=None',
    'fft.is_complex_dtype':
        'dtype',
    'fft.real_dtype':
        'dtype',
    'fft.rfftn':
        'a s=None axes=None',
    'fft.rfftn_empty_aligned':
        "shape axes dtype order='C' n=None",
    'fft.rfl2norm2':
        'xf xs axis=(0,1)',
    'interp.bilinear_demosaic':
        'img',
    'interp.interpolation_points':
        'N include_zero=True',
    'interp.lanczos_filters':
        'sz a=3 collapse_axes=True',
    'interp.lanczos_kernel':
        'x a=3',
    'interp.lstabsdev':
        'A b',
    'interp.lstmaxdev':
        'A b',
    'linalg.block_circulant':
        'A',
    'linalg.cho_factor':
        'A rho lower=False check_finite=True',
    'linalg.cho_solve_AATI':
        'A rho b c lwr=False check_finite=True',
    'linalg.cho_solve_ATAI':
        'A rho b c lwr=False check_finite=True',
    'linalg.dot':
        'a b axis=-2',
    'linalg.inner':
        'x y axis=-1',
    'linalg.kpsvd':
        'A bshape cshape',
    'linalg.lu_factor':
        'A rho check_finite=True',
    'linalg.lu_solve_AATI':
        'A rho b lu piv check_finite=True',
    'linalg.lu_solve_ATAI':
        'A rho b lu piv check_finite=True',
    'linalg.nkp':
        'A bshape cshape',
    'linalg.pca':
        'U centre=False',
    'linalg.proj_l2ball':
        'b s r axes?',
    'linalg.rrs':
        'ax b',
    'linalg.solve_symmetric_sylvester':
        'A B C alpha',
    'linalg.solvedbd_sm':
        'ah d b c=None axis=4',
    'linalg.solvedbd_sm_c':
        'ah a d axis=4',
    'linalg.solvedbi_sm':
        'ah rho b c=None axis=4',
    'linalg.solvedbi_sm_c':
        'ah a rho axis=4',
    'linalg.solvemdbi_cg':
        'ah rho b axisM axisK tol? mit? isn?',
    'linalg.solvemdbi_ism':
        'ah rho b axisM axisK',
    'linalg.solvemdbi_rsm':
        'ah rho b axisK dimN=2',
    'linalg.valid_adjoint':
        'A AT Ashape ATshape eps=1e-07',
    'metric.bsnr':
        'vblr vnsy',
    'metric.gmsd':
        'vref vcmp rescale=True returnMap=False',
    'metric.isnr':
        'vref vdeg vrst',
    'metric.mae':
        'vref vcmp',
    'metric.mse':
        'vref vcmp',
    'metric.pamse':
        'vref vcmp rescale=True',
    'metric.psnr':
        'vref vcmp rng=None',
    'metric.snr':
        'vref vcmp',
    'mpiutil.grid_search':
        'fn grid comm=None mpidtype=None fmin=True',
    'pgm.backtrack.BacktrackRobust.__init__':
        'gamma_d? gamma_u? maxiter?',
    'pgm.backtrack.BacktrackRobust.update':
        'solverobj',
    'pgm.backtrack.BacktrackStandard.__init__':
        'gamma_u? maxiter?',
    'pgm.backtrack.BacktrackStandard.update':
        'solverobj',
    'pgm.bpdn.BPDN.Options.__init__':
        'opt=None',
    'pgm.bpdn.BPDN.__init__':
        'D S lmbda? opt?',
    'pgm.bpdn.WeightedBPDN.__init__':
        'D S lmbda? W? opt?',
    'pgm.cbpdn.ConvBPDN.Options.__init__':
        'opt=None',
    'pgm.cbpdn.ConvBPDN.__init__':
        'D S lmbda? opt? dimK=None dimN=2',
    'pgm.cbpdn.ConvBPDNMask.__init__':
        'D S lmbda W? opt? dimK=None dimN=2',
    'pgm.ccmod.ConvCnstrMOD.Options.__init__':
        'opt=None',
    'pgm.ccmod.ConvCnstrMOD.__init__':
        'Z S dsz opt? dimK=1 dimN=2',
    'pgm.ccmod.ConvCnstrMODMask.Options.__init__':
        'opt=None',
    'pgm.ccmod.ConvCnstrMODMask.__init__':
        'Z S W dsz opt? dimK=None dimN=2',
    'pgm.cmod.CnstrMOD.Options.__init__':
        'opt=None',
    'pgm.cmod.CnstrMOD.__init__':
        'Z S dsz? opt?',
    'pgm.cmod.WeightedCnstrMOD.__init__':
        'Z S W? dsz? opt?',
    'pgm.cmod.getPcn':
        'zm nnc',
    'pgm.cmod.normalise':
        'v',
    'pgm.cmod.zeromean':
        'v',
    'pgm.momentum.MomentumGenLinear.__init__':
        'a? b?',
    'pgm.momentum.MomentumLinear.__init__':
        'b?',
    'pgm.pgm.PGM.Options.__init__':
        'opt=None',
    'pgm.pgm.PGM.__init__':
        'xshape dtype opt?',
    'pgm.pgm.PGMDFT.Options.__init__':
        'opt=None',
    'pgm.pgm.PGMDFT.__init__':
        'xshape Nv axisN dtype opt?',
    'pgm.ppp.GenericPPP.__init__':
        'xshape opt?',
    'pgm.ppp.PPP.__init__':
        'xshape f gradf proxg opt?',
    'pgm.stepsize.StepSizePolicyBB.store_prev_state':
        'xprv gradprv',
    'pgm.stepsize.StepSizePolicyBB.update':
        'solverobj grad?',
    'pgm.stepsize.StepSizePolicyCauchy.update':
        'solverobj grad?',
    'prox._dl1l2.norm_dl1l2':
        'x beta=1.0 axis=None',
    'prox._dl1l2.prox_dl1l2':
        'v alpha beta=1.0 axis=None',
    'prox._l1proj.proj_l1':
        'v gamma axis=None method=None',
    'prox._l21.norm_l21':
        'x axis=-1',
    'prox._l21.prox_sl1l2':
        'v alpha beta axis=None',
    'prox._lp.norm_2l2':
        'x axis=None',
    'prox._lp.norm_l0':
        'x axis=None eps=0.0',
    'prox._lp.norm_l1':
        'x axis=None',
    'prox._lp.norm_l2':
        'x axis=None',
    'prox._lp.proj_l2':
        'v gamma axis=None',
    'prox._lp.prox_l0':
        'v alpha',
    'prox._lp.prox_l1':
        'v alpha',
    'prox._lp.prox_l2':
        'v alpha axis=None',
    'prox._nuclear.norm_nuclear':
        'X',
    'prox._nuclear.prox_nuclear':
        'V alpha',
    'prox._util.ndfrom2d':
        'xtr rsi',
    'prox._util.ndto2d':
        'x axis=-1',
    'signal.gaussian':
        'shape sd=1.0',
    'signal.grad':
        'x axis zero_pad?',
    'signal.gradT':
        'x axis zero_pad?',
    'signal.gradient_filters':
        'ndim axes axshp dtype?',
    'signal.local_contrast_normalise':
        's n=7 c=None',
    'signal.rgb2gray':
        'rgb',
    'signal.rndmask':
        'shp frc dtype=None',
    'signal.spnoise':
        's frc smn=0.0 smx=1.0',
    'signal.tikhonov_filter':
        's lmbda npd?',
    'util.ContextTimer.__init__':
        "timer=None label=None action='StartStop'",
    'util.ContextTimer.elapsed':
        'total=True',
    'util.ExampleImages.__init__':
        'scaled=False dtype=None zoom=None gray=False pth=None',
    'util.ExampleImages.groupimages':
        'grp',
    'util.ExampleImages.image':
        'fname group=None scaled=None dtype=None idxexp=None zoom=None '
        'gray=None',
    'util.Timer.__init__':
        "labels=None dfltlbl='main' alllbl='all'",
    'util.Timer.elapsed':
        'label=None total=True',
    'util.Timer.reset':
        'labels=None',
    'util.Timer.start':
        'labels=None',
    'util.Timer.stop':
        'labels=None',
    'util.grid_search':
        'fn grd fmin=True nproc=None',
    'util.idle_cpu_count':
        'mincpu?',
    'util.netgetdata':
        'url maxtry=3 timeout=10',
    'util.tiledict':
        'D sz?',
}
