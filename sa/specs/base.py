"""Documented behaviour of timers and attribute helpers."""
import numpy as np
from timeit import default_timer as now


class Timer:
    """per label: accumulated time of completed periods, start of the
    current period"""

    def __init__(self, labels, dfltlbl, alllbl):
        self.names = []
        self.acc = {}
        self.begin = {}
        self.dflt = dfltlbl
        self.every = alllbl
        if labels is not None:
            for x in self.aslist(labels):
                self.new(x)

    def new(self, x):
        self.names.append(x)
        self.acc[x] = 0.0
        self.begin[x] = None

    def aslist(self, labels):
        if labels is None:
            return [self.dflt]
        if isinstance(labels, (list, tuple)):
            return list(labels)
        return [labels]

    def chosen(self, labels):
        if labels is not None and not isinstance(labels, (list, tuple)):
            if labels == self.every:
                return list(self.names)
        return self.aslist(labels)

    def start(self, labels):
        t = now()
        for x in self.aslist(labels):
            if x not in self.acc:
                self.new(x)
            if self.begin[x] is None:
                self.begin[x] = t

    def stop(self, labels):
        t = now()
        for x in self.chosen(labels):
            if x not in self.acc:
                raise KeyError(x)
            if self.begin[x] is not None:
                self.acc[x] = self.acc[x] + t - self.begin[x]
                self.begin[x] = None

    def reset(self, labels):
        for x in self.chosen(labels):
            if x not in self.acc:
                raise KeyError(x)
            self.begin[x] = None
            self.acc[x] = 0.0

    def elapsed(self, label, total):
        if label is None:
            label = self.dflt
            if label not in self.acc:
                return 0.0
        if label not in self.acc:
            raise KeyError(label)
        t = 0.0
        if self.begin[label] is not None:
            t = now() - self.begin[label]
        if total:
            t = t + self.acc[label]
        return t


class ContextTimer:
    def __init__(self, timer, label, action):
        if action != 'StartStop' and action != 'StopStart':
            raise ValueError(action)
        self.timer = timer
        self.label = label
        self.first = action == 'StartStop'

    def __enter__(self):
        if self.first:
            self.timer.start(self.label)
        else:
            self.timer.stop(self.label)
        return self

    def __exit__(self, type, value, traceback):
        if self.first:
            self.timer.stop(self.label)
        else:
            self.timer.start(self.label)

    def elapsed(self, total):
        return self.timer.elapsed(self.label, total)


def set_attr(old, val, dval, dtype, reset):
    """value of an attribute after set_attr"""
    if old is not None and not reset:
        return old
    if val is None:
        val = dval
    if dtype is not None and val is not None:
        if isinstance(dtype, type):
            val = dtype(val)
        else:
            val = dtype.type(val)
    return val


def set_dtype(old, opt, dtype):
    if old is not None:
        return old
    if opt is not None:
        return np.dtype(opt)
    return np.dtype(dtype)
