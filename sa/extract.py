"""Extraction of value graphs of the public frontends, with symbolic constructor parameters and input."""
from .nodes import mk, Node
from .interp import Project, Interp, AnalysisError

FRONTENDS = {
    ('1d', 'numpy'): ('kymatio.scattering1d.frontend.numpy_frontend', 'ScatteringNumPy1D', 'scattering'),
    ('1d', 'torch'): ('kymatio.scattering1d.frontend.torch_frontend', 'ScatteringTorch1D', 'scattering'),
    ('1d', 'tensorflow'): ('kymatio.scattering1d.frontend.tensorflow_frontend', 'ScatteringTensorFlow1D', 'scattering'),
    ('1d', 'jax'): ('kymatio.scattering1d.frontend.jax_frontend', 'ScatteringJax1D', 'scattering'),
    ('1d', 'sklearn'): ('kymatio.scattering1d.frontend.sklearn_frontend', 'ScatteringTransformer1D', 'scattering'),
    ('1d', 'keras'): ('kymatio.scattering1d.frontend.keras_frontend', 'ScatteringKeras1D', 'call'),
    ('jtfs', 'numpy'): ('kymatio.scattering1d.frontend.numpy_frontend', 'TimeFrequencyScatteringNumPy', 'scattering'),
    ('jtfs', 'torch'): ('kymatio.scattering1d.frontend.torch_frontend', 'TimeFrequencyScatteringTorch', 'scattering'),
    ('jtfs', 'tensorflow'): ('kymatio.scattering1d.frontend.tensorflow_frontend', 'TimeFrequencyScatteringTensorFlow', 'scattering'),
    ('jtfs', 'jax'): ('kymatio.scattering1d.frontend.jax_frontend', 'TimeFrequencyScatteringJax', 'scattering'),
    ('jtfs', 'sklearn'): ('kymatio.scattering1d.frontend.sklearn_frontend', 'TimeFrequencyScatteringTransformer', 'scattering'),
    ('2d', 'numpy'): ('kymatio.scattering2d.frontend.numpy_frontend', 'ScatteringNumPy2D', 'scattering'),
    ('2d', 'torch'): ('kymatio.scattering2d.frontend.torch_frontend', 'ScatteringTorch2D', 'scattering'),
    ('2d', 'tensorflow'): ('kymatio.scattering2d.frontend.tensorflow_frontend', 'ScatteringTensorFlow2D', 'scattering'),
    ('2d', 'jax'): ('kymatio.scattering2d.frontend.jax_frontend', 'ScatteringJax2D', 'scattering'),
    ('2d', 'sklearn'): ('kymatio.scattering2d.frontend.sklearn_frontend', 'ScatteringTransformer2D', 'scattering'),
    ('2d', 'keras'): ('kymatio.scattering2d.frontend.keras_frontend', 'ScatteringKeras2D', 'call'),
    ('3d', 'numpy'): ('kymatio.scattering3d.frontend.numpy_frontend', 'HarmonicScatteringNumPy3D', 'scattering'),
    ('3d', 'torch'): ('kymatio.scattering3d.frontend.torch_frontend', 'HarmonicScatteringTorch3D', 'scattering'),
    ('3d', 'tensorflow'): ('kymatio.scattering3d.frontend.tensorflow_frontend', 'HarmonicScatteringTensorFlow3D', 'scattering'),
    ('3d', 'jax'): ('kymatio.scattering3d.frontend.jax_frontend', 'HarmonicScatteringJax3D', 'scattering'),
    ('3d', 'sklearn'): ('kymatio.scattering3d.frontend.sklearn_frontend', 'HarmonicScatteringTransformer3D', 'scattering'),
}


def atom(n, k='any'):
    return mk('atom', n, k)


def get_class(ip, modname, clsname):
    m = ip.project.modules.get(modname)
    if m is None:
        raise AnalysisError('module %s vanished' % modname)
    ip.load_module(m)
    fr = ip.st.frames[m.fid]
    if clsname not in fr:
        raise AnalysisError('%s.%s vanished' % (modname, clsname))
    return fr[clsname]


class Built:
    pass


def snapshot(ip):
    b = Built()
    b.events = list(ip.st.events)
    b.opaques = list(ip.opaques)
    return b
