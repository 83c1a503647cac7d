"""Reference iteration protocols: which steps are performed, in which order
and with which arguments, when the iteration stops, what is recorded."""


def callback(obj):
    return None


class Recorder:
    """stands for the list of recorded iteration statistics"""

    def append(self, x):
        return None

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self


class sporco__admm__admm__ADMM:
    def solve(s, n):
        k = s.k
        m = 0
        done = False
        while m < n and not done:
            s.k = k + m
            s.Yprev = s.Y.copy()
            s.xstep()
            s.relax_AX()
            s.ystep()
            s.ustep()
            if s.opt['AutoRho', 'Enabled'] or not s.opt['FastSolve']:
                r, d, epri, edua = s.compute_residuals()
                if not s.opt['FastSolve']:
                    s.itstat.append(s.iteration_stats(s.k, r, d, epri, edua))
                s.update_rho(s.k, r, d)
                done = r < epri and d < edua
            if s.opt['Callback'] is not None:
                if s.opt['Callback'](s):
                    done = True
            m = m + 1
        return {'return': s.getmin(), 'k': k + max(m, 1)}


class sporco__admm__rpca__RobustPCA(sporco__admm__admm__ADMM):
    def solve(s, n):
        d = sporco__admm__admm__ADMM.solve(s, n)
        d['return'] = (s.X, s.Y)
        return d


class sporco__pgm__pgm__PGM:
    def solve(s, n):
        k = s.k
        m = 0
        done = False
        while m < n and not done:
            s.k = k + m
            s.on_iteration_start()
            if s.opt['Backtrack'] is None:
                s.xstep()
                s.ystep()
            else:
                s.backtrack.update(s)
            if not s.opt['FastSolve']:
                r, tol = s.compute_residuals()
                s.itstat.append(s.iteration_stats(s.k, r))
                done = r < tol
            if s.opt['Callback'] is not None:
                if s.opt['Callback'](s):
                    done = True
            m = m + 1
        return {'return': s.getmin(), 'k': k + max(m, 1)}


class sporco__dictlrn__dictlrn__DictLearn:
    def solve(s, n):
        j = s.j
        m = 0
        done = False
        x = s.xstep
        d = s.dstep
        while m < n and not done:
            s.j = j + m
            x.solve()
            d.setcoef(x.getcoef())
            d.solve()
            x.setdict(d.getdict())
            e = s.evaluate()
            if x.itstat:
                a = x.itstat[-1]
            else:
                a = x.IterationStats(*[0.0, ] * len(x.IterationStats._fields))
            if d.itstat:
                b = d.itstat[-1]
            else:
                b = d.IterationStats(*[0.0, ] * len(d.IterationStats._fields))
            s.itstat.append(s.isc.iterstats(
                s.j, s.timer.elapsed(s.opt['IterTimer']), a, b, e))
            if s.opt['Callback'] is not None:
                if s.opt['Callback'](s):
                    done = True
            m = m + 1
        return {'return': s.getdict(), 'j': j + max(m, 1)}
