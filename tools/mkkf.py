#!/usr/bin/env python3
"""Writes known_findings.json (fixed defects; recorded findings)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = '''
C06 fd3660d ConvBPDN, Y0 given: initial dual variable read lmbda and rho before they were set
C06 fe7cddd ConvBPDNMaskDcpl, Y0 given: uinit read attributes not yet set
C06 57fd7a4 ConvMinL1InL2Ball, Y0 given: uinit called an undefined function, blocks swapped
C06 f343bf0 AddMaskSim.setdict called an undefined function
C06 ad927b8 MultiDictConvBPDN.reconstruct called an undefined function
C06 ff587cd MinL1InL2Ball, Y0 given: S read before it was set
C06 f37bcda SplineL1, Y0 given: Wdf read before it was set
C06 abb2d7c pgm CnstrMOD.reconstruct read an undefined attribute
C29 a80bb74 pgm BPDN.reconstruct ignored its argument
C07 79dd797 ConvElasticNet and ConvBPDNGradReg with HighMemSolve kept a solver cache without the mu term after a rho change
C06 8861bfe ConvL1L1Grd read attributes before they were set
C06 6bd1ab1 ConvBPDNJoint with options omitted read a missing option
C26 5a456a2 ConvBPDNScalarTV x step wrong for an array TVWeight
C06 2f04b2e ConvProdDictL1L1Grd failed for initial values of Y and U
C07 267b293 ConvProdDictBPDN.setdict left arrays depending on B stale
C06 a3b29ab ConvProdDictL1L1GrdJoint with options omitted read missing options
C01 97c5e1f dictionary learning options modified the class defaults
C01 d329e3d ConstrainedDict.setdefault and |= bypassed validation
C19 490edc8 Hessian of weighted and masked PGM data terms ignored the weights
C19 9ef5c02 PGMDFT Monotone option did not revert the solution array
C20 475c48e online CDL gradient wrong for multi-channel data and single-channel dictionary
C20 16ba219 online masked CDL gradient wrong for non-binary masks
C20 0989750 online CDL did not adapt to a change in the number of training images
C16 38723e3 gradient_filters failed for the default dtype and for axes not starting at zero
C26 1f255d2 TV denoising adjoint operator assumed axes starting at zero
C25 31c6cdf prox_l1 of a complex array was NaN where the array is zero
C13 a421f51 zero mean projection ignored the number of spatial dimensions
C06 edffbf2 ADMMTwoBlockCnstrnt default options lacked its own keys
C15 d613cae ParConvBPDN initial values assigned to the wrong variables
C15 22faba3 ParConvBPDN x step summed over the wrong axis for multi-channel dictionaries
C15 6e7d6c3 ParConvBPDN compared iteration numbers by identity
C08 2174c6f masked consensus dictionary update did not rescale all dual variables
C26 fa0942f ConvBPDNScalarTV y step was not the prox of the TV term
C26 036680b ConvBPDNRecTV.cnst_AT did not sum over channels for multi-channel dictionaries
C18 6b2a26c solve_symmetric_sylvester was wrong for indefinite matrices
C18 3509ba9 numexpr variants of diagonal plus rank one solvers changed the dtype
C16 39a93c4 rgb2gray was wrong for integer images and for Nr x Nc x 3 x K arrays
C16 1facd54 rndmask was constant for integer and bool dtypes
C16 dd5e134 grad and gradT set the wrong samples to zero for negative axis
C30 42bdca4 bsnr difference wrapped around for unsigned integer images
C30 d95bb65 bilinear_demosaic used bicubic instead of bilinear interpolation
C14 4ada8d6 accurately evaluated dictionary learning objective ignored L1Weight
C06 88f48fc masked online dictionary learning with options omitted read a missing option
C31 4f2fecf ConvProdDictL1L1Grd did not infer the number of signal axes when dimK is None
C02 91728fd ElasticNet kept a double precision dictionary with single precision signals
C02 f7e32cf CnstrMOD.setcoef used the unconverted coefficient array
C02 8ec27c0 GenericPPPConsensus started from a double precision X whatever the data type
C02 0e7c193 proximal gradient PPP kept a double precision previous iterate
C02 2ea2583 proximal gradient ConvCnstrMODMask kept a double precision mask
C02 a40e096 prox_dl1l2 returned double precision zeros, and failed for complex arrays
C02 d15bab1 solvemdbi_rsm computed in double precision
C02 b9ceb2d prox_l1 returned double precision for a Python scalar threshold
C31 8ae99e9 ConvProdDictL1L1GrdJoint did not accept the documented mask W
C03 0950f1b functions of fft, linalg, signal and prox used other parameter names or defaults than documented
'''
FINDINGS = []
fixed = []
for l in FIXED.strip().split('\n'):
    p, c, w = l.split(' ', 2)
    fixed.append('fixed: property=%s %s %s' % (p, c, w))
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
    f.write('\n')
