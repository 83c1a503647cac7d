"""Documented default options: class -> (parent class, options added or
changed)."""

DEFAULTS = {
    'admm.admm.ADMM.Options':
    (None,
     {'AbsStopTol': 0,
      'AutoRho': {'AutoScaling': False,
                  'Enabled': False,
                  'Period': 10,
                  'RsdlRatio': 10,
                  'RsdlTarget': None,
                  'Scaling': 2,
                  'StdResiduals': False},
      'Callback': None,
      'DataType': None,
      'FastSolve': False,
      'IterTimer': 'solve',
      'MaxMainIter': 1000,
      'RelStopTol': 0.001,
      'RelaxParam': 1,
      'StatusHeader': True,
      'U0': None,
      'Verbose': False,
      'Y0': None,
      'rho': None}),
    'admm.admm.ADMMConsensus.Options':
    ('admm.admm.ADMM.Options',
     {'AuxVarObj': True, 'fEvalX': False, 'gEvalY': True}),
    'admm.admm.ADMMEqual.Options':
    ('admm.admm.ADMM.Options',
     {'ReturnX': True, 'fEvalX': True, 'gEvalY': True}),
    'admm.admm.ADMMTwoBlockCnstrnt.Options':
    ('admm.admm.ADMM.Options',
     {'AuxVarObj': False, 'ReturnVar': 'X'}),
    'admm.admm.WeightedADMMConsensus.Options':
    ('admm.admm.ADMMConsensus.Options',
     {}),
    'admm.bpdn.GenericBPDN.Options':
    ('admm.admm.ADMMEqual.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 10,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'AuxVarObj': True,
      'LinSolveCheck': False,
      'NonNegCoef': False,
      'RelaxParam': 1.8,
      'ReturnX': False,
      'fEvalX': False}),
    'admm.bpdn.BPDN.Options':
    ('admm.bpdn.GenericBPDN.Options',
     {'L1Weight': 1}),
    'admm.bpdn.BPDNProjL1.Options':
    ('admm.bpdn.GenericBPDN.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 10,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': 1,
                  'Scaling': 1000,
                  'StdResiduals': False}}),
    'admm.bpdn.MinL1InL2Ball.Options':
    ('admm.admm.ADMMTwoBlockCnstrnt.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 10,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': 1,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'L1Weight': 1,
      'NonNegCoef': False,
      'RelaxParam': 1.8,
      'fEvalX': True,
      'gEvalY': False}),
    'admm.cbpdn.GenericConvBPDN.Options':
    ('admm.admm.ADMMEqual.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'AuxVarObj': False,
      'HighMemSolve': False,
      'LinSolveCheck': False,
      'NoBndryCross': False,
      'NonNegCoef': False,
      'RelaxParam': 1.8,
      'ReturnX': False,
      'gEvalY': False}),
    'admm.cbpdn.ConvBPDN.Options':
    ('admm.cbpdn.GenericConvBPDN.Options',
     {'L1Weight': 1}),
    'admm.cbpdn.ConvBPDNGradReg.Options':
    ('admm.cbpdn.ConvBPDN.Options',
     {'GradWeight': 1}),
    'admm.cbpdn.ConvBPDNJoint.Options':
    ('admm.cbpdn.ConvBPDN.Options',
     {'L21Weight': 1}),
    'admm.cbpdn.ConvTwoBlockCnstrnt.Options':
    ('admm.admm.ADMMTwoBlockCnstrnt.Options',
     {'HighMemSolve': False,
      'LinSolveCheck': False,
      'NoBndryCross': False,
      'NonNegCoef': False,
      'RelaxParam': 1.8,
      'ReturnVar': 'Y1',
      'ReturnX': True,
      'fEvalX': True,
      'gEvalY': False,
      'rho': 1}),
    'admm.cbpdn.ConvBPDNMaskDcpl.Options':
    ('admm.cbpdn.ConvTwoBlockCnstrnt.Options',
     {'L1Weight': 1}),
    'admm.cbpdn.ConvBPDNProjL1.Options':
    ('admm.cbpdn.GenericConvBPDN.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': 1,
                  'Scaling': 1000,
                  'StdResiduals': False}}),
    'admm.cbpdn.ConvL1L1Grd.Options':
    ('admm.cbpdn.ConvBPDNMaskDcpl.Options',
     {'GradWeight': 1}),
    'admm.cbpdn.ConvMinL1InL2Ball.Options':
    ('admm.cbpdn.ConvTwoBlockCnstrnt.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 10,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': 1,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'L1Weight': 1}),
    'admm.cbpdnin.ConvBPDNInhib.Options':
    ('admm.cbpdn.ConvBPDN.Options',
     {'SmoothWeight': 0.9}),
    'admm.cbpdntv.ConvBPDNRecTV.Options':
    ('admm.cbpdn.ConvBPDN.Options',
     {'TVWeight': 1}),
    'admm.cbpdntv.ConvBPDNScalarTV.Options':
    ('admm.cbpdn.ConvBPDN.Options',
     {'TVWeight': 1}),
    'admm.ccmod.ConvCnstrMODBase.Options':
    ('admm.admm.ADMMEqual.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'AuxVarObj': False,
      'LinSolveCheck': False,
      'RelaxParam': 1.8,
      'ReturnX': False,
      'ZeroMean': False,
      'gEvalY': False}),
    'admm.ccmod.ConvCnstrMOD_CG.Options':
    ('admm.ccmod.ConvCnstrMODBase.Options',
     {'CG': {'MaxIter': 1000, 'StopTol': 0.001}}),
    'admm.ccmod.ConvCnstrMOD_Consensus.Options':
    ('admm.admm.ADMMConsensus.Options',
     {'LinSolveCheck': False,
      'RelaxParam': 1.8,
      'ReturnX': False,
      'ZeroMean': False}),
    'admm.ccmod.ConvCnstrMOD_IterSM.Options':
    ('admm.ccmod.ConvCnstrMODBase.Options',
     {}),
    'admm.ccmodmd.ConvCnstrMODMaskDcplBase.Options':
    ('admm.admm.ADMMTwoBlockCnstrnt.Options',
     {'LinSolveCheck': False,
      'RelaxParam': 1.8,
      'ReturnVar': 'Y1',
      'ReturnX': True,
      'ZeroMean': False,
      'fEvalX': True,
      'gEvalY': False,
      'rho': 1}),
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_CG.Options':
    ('admm.ccmodmd.ConvCnstrMODMaskDcplBase.Options',
     {'CG': {'MaxIter': 1000, 'StopTol': 0.001}}),
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_IterSM.Options':
    ('admm.ccmodmd.ConvCnstrMODMaskDcplBase.Options',
     {}),
    'admm.cmod.CnstrMOD.Options':
    ('admm.admm.ADMMEqual.Options',
     {'AutoRho': {'AutoScaling': False,
                  'Enabled': True,
                  'Period': 10,
                  'RsdlRatio': 10,
                  'RsdlTarget': None,
                  'Scaling': 2,
                  'StdResiduals': False},
      'AuxVarObj': True,
      'RelaxParam': 1.8,
      'ReturnX': False,
      'ZeroMean': False,
      'fEvalX': False}),
    'admm.parcbpdn.ParConvBPDN.Options':
    ('admm.cbpdn.GenericConvBPDN.Options',
     {'L1Weight': 1, 'U1': None, 'Y1': None, 'alpha': None}),
    'admm.pdcsc.ConvProdDictL1L1GrdJoint.Options':
    ('admm.cbpdn.ConvL1L1Grd.Options',
     {'L21Weight': 1}),
    'admm.rpca.RobustPCA.Options':
    ('admm.admm.ADMM.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'RelaxParam': 1.8,
      'fEvalX': True,
      'gEvalY': True}),
    'admm.spline.SplineL1.Options':
    ('admm.admm.ADMM.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'DFidWeight': 1,
      'LinSolveCheck': False,
      'RelaxParam': 1.8,
      'gEvalY': True}),
    'admm.tvl1.TVL1Deconv.Options':
    ('admm.admm.ADMM.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': False,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'DFidWeight': 1,
      'LinSolveCheck': False,
      'RelaxParam': 1.8,
      'TVWeight': 1,
      'gEvalY': True}),
    'admm.tvl1.TVL1Denoise.Options':
    ('admm.admm.ADMM.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': False,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'DFidWeight': 1,
      'GSTol': 0,
      'MaxGSIter': 2,
      'RelaxParam': 1.8,
      'TVWeight': 1,
      'gEvalY': True}),
    'admm.tvl2.TVL2Deconv.Options':
    ('admm.admm.ADMM.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': True,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'LinSolveCheck': False,
      'RelaxParam': 1.8,
      'TVWeight': 1,
      'gEvalY': True}),
    'admm.tvl2.TVL2Denoise.Options':
    ('admm.admm.ADMM.Options',
     {'AutoRho': {'AutoScaling': True,
                  'Enabled': False,
                  'Period': 1,
                  'RsdlRatio': 1.2,
                  'RsdlTarget': None,
                  'Scaling': 1000,
                  'StdResiduals': False},
      'DFidWeight': 1,
      'GSTol': 0,
      'MaxGSIter': 2,
      'RelaxParam': 1.8,
      'TVWeight': 1,
      'gEvalY': True}),
    'dictlrn.dictlrn.DictLearn.Options':
    (None,
     {'Callback': None,
      'IterTimer': 'solve',
      'MaxMainIter': 1000,
      'StatusHeader': True,
      'Verbose': False}),
    'dictlrn.bpdndl.BPDNDictLearn.Options':
    ('dictlrn.dictlrn.DictLearn.Options',
     {'AccurateDFid': False,
      'BPDN': {'AbsStopTol': 0,
               'AutoRho': {'AutoScaling': True,
                           'Enabled': True,
                           'Period': 10,
                           'RsdlRatio': 1.2,
                           'RsdlTarget': None,
                           'Scaling': 1000,
                           'StdResiduals': False},
               'AuxVarObj': True,
               'Callback': None,
               'DataType': None,
               'FastSolve': False,
               'IterTimer': 'solve',
               'L1Weight': 1,
               'LinSolveCheck': False,
               'MaxMainIter': 1000,
               'NonNegCoef': False,
               'RelStopTol': 0.001,
               'RelaxParam': 1.8,
               'ReturnX': False,
               'StatusHeader': True,
               'U0': None,
               'Verbose': False,
               'Y0': None,
               'fEvalX': False,
               'gEvalY': True,
               'rho': None},
      'CMOD': {'AbsStopTol': 0,
               'AutoRho': {'AutoScaling': False,
                           'Enabled': True,
                           'Period': 10,
                           'RsdlRatio': 10,
                           'RsdlTarget': None,
                           'Scaling': 2,
                           'StdResiduals': False},
               'AuxVarObj': True,
               'Callback': None,
               'DataType': None,
               'FastSolve': False,
               'IterTimer': 'solve',
               'MaxMainIter': 1000,
               'RelStopTol': 0.001,
               'RelaxParam': 1.8,
               'ReturnX': False,
               'StatusHeader': True,
               'U0': None,
               'Verbose': False,
               'Y0': None,
               'ZeroMean': False,
               'fEvalX': False,
               'gEvalY': True,
               'rho': None}}),
    'dictlrn.cbpdndl.ConvBPDNDictLearn.Options':
    ('dictlrn.dictlrn.DictLearn.Options',
     {'AccurateDFid': False, 'DictSize': None}),
    'dictlrn.cbpdndlmd.ConvBPDNMaskDictLearn.Options':
    ('dictlrn.dictlrn.DictLearn.Options',
     {'AccurateDFid': False, 'DictSize': None}),
    'dictlrn.onlinecdl.OnlineConvBPDNDictLearn.Options':
    (None,
     {'CBPDN': {'AbsStopTol': 0,
                'AutoRho': {'AutoScaling': True,
                            'Enabled': True,
                            'Period': 1,
                            'RsdlRatio': 1.2,
                            'RsdlTarget': None,
                            'Scaling': 1000,
                            'StdResiduals': False},
                'AuxVarObj': False,
                'Callback': None,
                'DataType': None,
                'FastSolve': False,
                'HighMemSolve': False,
                'IterTimer': 'solve',
                'L1Weight': 1,
                'LinSolveCheck': False,
                'MaxMainIter': 1000,
                'NoBndryCross': False,
                'NonNegCoef': False,
                'RelStopTol': 0.001,
                'RelaxParam': 1.8,
                'ReturnX': False,
                'StatusHeader': True,
                'U0': None,
                'Verbose': False,
                'Y0': None,
                'fEvalX': True,
                'gEvalY': False,
                'rho': None},
      'CUDA_CBPDN': False,
      'DataType': None,
      'DictSize': None,
      'IterTimer': 'solve',
      'StatusHeader': True,
      'Verbose': False,
      'ZeroMean': False,
      'eta_a': 10,
      'eta_b': 5}),
    'dictlrn.onlinecdl.OnlineConvBPDNMaskDictLearn.Options':
    ('dictlrn.onlinecdl.OnlineConvBPDNDictLearn.Options',
     {'CBPDN': {'AbsStopTol': 0,
                'AutoRho': {'AutoScaling': False,
                            'Enabled': False,
                            'Period': 10,
                            'RsdlRatio': 10,
                            'RsdlTarget': None,
                            'Scaling': 2,
                            'StdResiduals': False},
                'AuxVarObj': False,
                'Callback': None,
                'DataType': None,
                'FastSolve': False,
                'HighMemSolve': False,
                'IterTimer': 'solve',
                'L1Weight': 1,
                'LinSolveCheck': False,
                'MaxMainIter': 1000,
                'NoBndryCross': False,
                'NonNegCoef': False,
                'RelStopTol': 0.001,
                'RelaxParam': 1.8,
                'ReturnVar': 'Y1',
                'ReturnX': True,
                'StatusHeader': True,
                'U0': None,
                'Verbose': False,
                'Y0': None,
                'fEvalX': True,
                'gEvalY': False,
                'rho': 1}}),
    'dictlrn.prlcnscdl.ConvBPDNDictLearn_Consensus.Options':
    ('dictlrn.cbpdndl.ConvBPDNDictLearn.Options',
     {}),
    'dictlrn.prlcnscdl.ConvBPDNMaskDcplDictLearn_Consensus.Options':
    ('dictlrn.cbpdndlmd.ConvBPDNMaskDictLearn.Options',
     {}),
    'dictlrn.wbpdndl.WeightedBPDNDictLearn.Options':
    ('dictlrn.dictlrn.DictLearn.Options',
     {'AccurateDFid': False,
      'BPDN': {'AutoStop': {'Enabled': False, 'Tau0': 0.01},
               'Backtrack': None,
               'Callback': None,
               'DataType': None,
               'FastSolve': False,
               'IterTimer': 'solve',
               'L': 500,
               'L1Weight': 1,
               'MaxMainIter': 1000,
               'Momentum': 'object of MomentumNesterov',
               'Monotone': False,
               'NonNegCoef': False,
               'RelStopTol': 0.001,
               'StatusHeader': True,
               'StepSizePolicy': None,
               'Verbose': False,
               'X0': None},
      'CMOD': {'AutoStop': {'Enabled': False, 'Tau0': 0.01},
               'Backtrack': None,
               'Callback': None,
               'DataType': None,
               'FastSolve': False,
               'IterTimer': 'solve',
               'L': 500,
               'MaxMainIter': 1000,
               'Momentum': 'object of MomentumNesterov',
               'Monotone': False,
               'NonNegCoef': False,
               'RelStopTol': 0.001,
               'StatusHeader': True,
               'StepSizePolicy': None,
               'Verbose': False,
               'X0': None,
               'ZeroMean': False}}),
    'pgm.pgm.PGM.Options':
    (None,
     {'AutoStop': {'Enabled': False, 'Tau0': 0.01},
      'Backtrack': None,
      'Callback': None,
      'DataType': None,
      'FastSolve': False,
      'IterTimer': 'solve',
      'L': None,
      'MaxMainIter': 1000,
      'Momentum': 'object of MomentumNesterov',
      'Monotone': False,
      'RelStopTol': 0.001,
      'StatusHeader': True,
      'StepSizePolicy': None,
      'Verbose': False,
      'X0': None}),
    'pgm.bpdn.BPDN.Options':
    ('pgm.pgm.PGM.Options',
     {'L': 500, 'L1Weight': 1, 'NonNegCoef': False}),
    'pgm.pgm.PGMDFT.Options':
    ('pgm.pgm.PGM.Options',
     {}),
    'pgm.cbpdn.ConvBPDN.Options':
    ('pgm.pgm.PGMDFT.Options',
     {'L': 500,
      'L1Weight': 1,
      'NoBndryCross': False,
      'NonNegCoef': False}),
    'pgm.ccmod.ConvCnstrMOD.Options':
    ('pgm.pgm.PGMDFT.Options',
     {'ZeroMean': False}),
    'pgm.ccmod.ConvCnstrMODMask.Options':
    ('pgm.ccmod.ConvCnstrMOD.Options',
     {}),
    'pgm.cmod.CnstrMOD.Options':
    ('pgm.pgm.PGM.Options',
     {'L': 500, 'NonNegCoef': False, 'ZeroMean': False}),
}
