"""Time-frequency coefficients together with the centre frequencies of the frequential filters."""
from spec.drive import bjtfs


def jtfs(cls, x, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format):
    S = bjtfs(cls, J, J_fr, N, Q1, Q2, T, stride, Q_fr, F, stride_fr, out_type, format)
    return S.scattering(x), [p['xi'] for p in S.filters_fr[1]]
