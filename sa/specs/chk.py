"""Filterbanks that break the subsampling condition, put in the way of each construction."""
from spec.drive import b1d, bjtfs


def held(psis):
    return [(p['xi'], p['j']) for p in psis]


def nat1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = b1d(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type)
    return held(S.psi1_f), held(S.psi2_f), []


def natjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    return held(S.psi1_f), held(S.psi2_f), held(S.filters_fr[1][1:])


def natkeras(cls, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    S = cls(J, Q=(Q1, Q2), T=T, max_order=max_order, oversampling=oversampling)
    S.build((None, N))
    return held(S.S.psi1_f), held(S.S.psi2_f), []


def own1d(cls, first, second, alpha, J, N, Q1, Q2, T, stride, max_order, oversampling, out_type):
    def bank(J, Q, **kwargs):
        for xi, sigma in (first if Q == 1 else second):
            yield xi, sigma

    class Sub(cls):
        @property
        def filterbank(self):
            return bank, {'alpha': alpha, 'r_psi': 0.5 ** 0.5, 'sigma0': 0.1}
    return nat1d(Sub, J, N, 1, 2, T, stride, max_order, oversampling, out_type)


def ownjtfs(cls, first, second, third, alpha, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    def bank(J, Q, **kwargs):
        for xi, sigma in (first if Q == 1 else second):
            yield xi, sigma

    def bank_fr(J, Q, **kwargs):
        for xi, sigma in third:
            yield xi, sigma

    class Sub(cls):
        @property
        def filterbank(self):
            return bank, {'alpha': alpha, 'r_psi': 0.5 ** 0.5, 'sigma0': 0.1}

        @property
        def filterbank_fr(self):
            return bank_fr, {'alpha': alpha, 'r_psi': 0.5 ** 0.5, 'sigma0': 0.1}
    return natjtfs(Sub, J, J_fr, N, 1, 2, T, stride, Q_fr, F, stride_fr, out_type, format)


def direct(f, first, second):
    f([{'xi': xi, 'j': j} for (xi, j) in first], [{'xi': xi, 'j': j} for (xi, j) in second])
    return [(xi, j) for (xi, j) in first], [(xi, j) for (xi, j) in second], []
