"""Documented behaviour of constrained dictionaries (sporco.cdict).

Operations on trees of dictionaries are events or opaque terms:
s.update(d), s.set(k, v), s.check(k, v), raw insertion, ..."""


from sporco.cdict import (ConstrainedDict as _CD, UnknownKeyError,
                          InvalidValueError)
from sporco.admm import bpdn, cmod, cbpdn
from sporco.dictlrn import wbpdndl


class ConstrainedDict:
    def __init__(s, d=None, pth=(), dflt=None):
        s.pth = pth
        if dflt is None:
            s.dflt = s.defaults
        else:
            s.dflt = dflt
        s.update(s.getnode(s.dflt, pth))
        if d is not None:
            s.update(d)

    def update(s, d):
        for k in d.keys():
            s[k] = d[k]

    def __ior__(s, d):
        s.update(d)
        return s

    def setdefault(s, key, default=None):
        p = s
        k = key
        if isinstance(key, tuple):
            p = s.getparent(s, key)
            k = key[-1]
        if not (k in p):
            s[key] = default
        return s[key]

    def __getitem__(s, key):
        p = s
        k = key
        if isinstance(key, tuple):
            p = s.getparent(s, key)
            k = key[-1]
        if k in p:
            return rawget(p, k)
        raise UnknownKeyError(key)

    def __setitem__(s, key, value):
        p = s
        k = key
        if isinstance(key, tuple):
            p = s.getparent(s, key)
            k = key[-1]
        if isinstance(value, _CD):
            p.check(k, value)
            rawset(p, k, value)
        elif isinstance(value, dict):
            if k in p:
                p[k].update(value)
            else:
                v = newnode(value, p.pth + (k,), s.dflt)
                p.check(k, v)
                rawset(p, k, v)
        else:
            p.check(k, value)
            rawset(p, k, value)

    def check(s, key, value):
        if hasattr(s, 'dflt'):
            a = s.getnode(s.dflt, s.pth)
            if not (key in a):
                raise UnknownKeyError(s.pth + (key,))
            if isinstance(a[key], dict) and not isinstance(value, dict):
                raise InvalidValueError(s.pth + (key,))

    def getparent(d, pth):
        c = d
        for k in pth[:-1]:
            if not isinstance(c, dict):
                raise InvalidValueError(c)
            if not (k in c):
                raise UnknownKeyError(pth)
            c = c[k]
        return c

    def getnode(d, pth):
        c = d
        for k in pth:
            if not isinstance(c, dict):
                raise InvalidValueError(c)
            if not (k in c):
                raise UnknownKeyError(pth)
            c = c[k]
        return c


def keycmp(a, b, pth=()):
    for k in b.keys():
        if not (k in a):
            raise UnknownKeyError(pth + (k,))
        if isinstance(a[k], dict):
            if isinstance(b[k], dict):
                keycmp(a[k], b[k], pth + (k,))
            else:
                raise InvalidValueError(pth + (k,))


def rawget(p, k):
    return dict.__getitem__(p, k)


def rawset(p, k, v):
    dict.__setitem__(p, k, v)


def newnode(d, pth, dflt):
    return _CD(d, pth, dflt)


# ---- constructors of option sets with inner option sets

AR = {'Period': 10, 'AutoScaling': False, 'RsdlRatio': 10.0, 'Scaling': 2.0,
      'RsdlTarget': 1.0}


def inner(s, d, opt):
    _CD.__init__(s, d)
    if opt is not None:
        s.update(opt)


def init_dictlrn__bpdndl__BPDNDictLearn__Options(s, opt=None):
    inner(s, {'BPDN': bpdn.BPDN.Options({'MaxMainIter': 1, 'AutoRho': AR}),
              'CMOD': cmod.CnstrMOD.Options({
                  'MaxMainIter': 1, 'AutoRho': {'Period': 10},
                  'AuxVarObj': False})}, opt)


def init_dictlrn__wbpdndl__WeightedBPDNDictLearn__Options(s, opt=None):
    inner(s, {'BPDN': wbpdndl.bpdn.WeightedBPDN.Options({'MaxMainIter': 1}),
              'CMOD': wbpdndl.cmod.WeightedCnstrMOD.Options(
                  {'MaxMainIter': 1})}, opt)


def init_dictlrn__onlinecdl__OnlineConvBPDNDictLearn__Options(s, opt=None):
    inner(s, {'CBPDN': cbpdn.ConvBPDN.Options(
        {'MaxMainIter': 100, 'AutoRho': AR})}, opt)


def init_dictlrn__onlinecdl__OnlineConvBPDNMaskDictLearn__Options(
        s, opt=None):
    _CD.__init__(s, {'CBPDN': cbpdn.ConvBPDN.Options(
        {'MaxMainIter': 100, 'AutoRho': AR})})
    s.update({'CBPDN': cbpdn.ConvBPDNMaskDcpl.Options({'AutoRho': AR})})
    if opt is not None:
        s.update(opt)


def init_target(s, opt=None):
    """option sets of the solvers whose residual target defaults to one"""
    if opt is None:
        _CD.__init__(s, {})
    else:
        _CD.__init__(s, opt)
    if s['AutoRho', 'RsdlTarget'] is None:
        s['AutoRho', 'RsdlTarget'] = 1.0


def init_admm__ccmod__ConvCnstrMOD_Consensus__Options(s, opt=None):
    init_target(s, opt)
    if opt is None:
        _CD.__init__(s, {})
    else:
        _CD.__init__(s, opt)
