"""Denotations of the library vocabulary (numpy / scipy / torch / tensorflow / jax) used by the repository."""
import math

import numpy as np
import scipy.special
import scipy.fft as sfft

from .nodes import is_const
from .hosts import Ext, ExcVal
from .evalr import (AV, DT, HostV, ObjV, Undecided, PyRaise, SliceVal2, SetV, is_av, raw, force, deep, collect, fw_of, nominal,
                    as_index, hashable, orderable, same, strof, pyscalar, DTALIAS, DTNAMES, as_range)

CPU = ObjV('device', {'type': 'cpu', 'index': None})
STRIDED = ObjV('layout')


def dtname(d):
    if d is None:
        return None
    if isinstance(d, DT):
        return d.name
    if isinstance(d, str):
        return DTALIAS.get(d, d)
    if isinstance(d, HostV) and isinstance(d.v, Ext):
        s = d.v.name.split('.')[-1]
        if d.v.name.startswith('builtins.'):
            return {'float': 'float64', 'complex': 'complex128', 'int': 'int64', 'bool': 'bool'}.get(s)
        return DTALIAS.get(s, s)
    raise Undecided('dtype %r' % (d,))


def cast(a, d):
    d = dtname(d)
    st = {'float32': 'float64', 'float16': 'float64', 'complex64': 'complex128'}.get(d, d)
    a = np.asarray(a)
    if a.dtype.kind == 'c' and np.dtype(st).kind != 'c':
        a = a.real
    return a.astype(st, order='K')


def mkav(a, dt, fw):
    r = AV.__new__(AV)
    r.a, r.dt, r.fw = np.asarray(a), dt, fw
    return r


def scal(a, fw='np'):
    a = np.asarray(a)
    return pyscalar(a[()]) if fw == 'np' and a.ndim == 0 else mkav(a, str(a.dtype), fw)


def intlist(v):
    v = force(v)
    if is_av(v):
        if v.a.dtype.kind not in 'iu':
            raise TypeError('shape must be integers')
        return tuple(int(x) for x in v.a.reshape(-1))
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            x = force(x)
            if is_av(x):
                x = int(x.a) if x.a.dtype.kind in 'iu' else _te()
            if x is None or isinstance(x, float):
                _te()
            out.append(int(x))
        return tuple(out)
    if isinstance(v, bool) or isinstance(v, int):
        return (int(v),)
    _te()


def _te():
    raise TypeError('an integer is required')


def axis_of(kw, args, pos=None, names=('axis', 'dim')):
    for n in names:
        if n in kw:
            v = force(kw[n])
            return intlist(v) if isinstance(v, (list, tuple)) else as_index(v)
    if pos is not None and len(args) > pos:
        v = force(args[pos])
        return intlist(v) if isinstance(v, (list, tuple)) else as_index(v)
    return None


def keep_of(kw, args, pos=None):
    for n in ('keepdims', 'keepdim', 'keep_dims'):
        if n in kw:
            return bool(kw[n])
    if pos is not None and len(args) > pos:
        return bool(args[pos])
    return False


def arr(v):
    v = raw(v)
    return np.asarray(v)


# --------------------------------------------------------------------------- attributes
def attribute(ev, b, name):
    if is_av(b):
        if name == 'shape':
            return tuple(int(x) for x in b.a.shape)
        if name == 'dtype':
            return DT(b.dt, b.fw)
        if name == 'ndim':
            return b.a.ndim
        if name == 'size' and b.fw in ('np', 'jax'):
            return int(b.a.size)
        if name in ('T', 'mT'):
            return mkav(b.a.T if name == 'T' else np.swapaxes(b.a, -1, -2), b.dt, b.fw)
        if name in ('real', 'imag') and b.fw != 'tf':
            d = {'complex64': 'float32', 'complex128': 'float64'}.get(b.dt, b.dt)
            if name == 'imag' and b.fw == 'torch' and b.a.dtype.kind != 'c':
                raise RuntimeError('imag of a real tensor')
            return ev.wrap(b.a.real if name == 'real' else b.a.imag, d, b.fw)
        if name == 'device':
            return CPU
        if name == 'layout' and b.fw == 'torch':
            return STRIDED
        if name in ('is_cuda', 'is_sparse', 'requires_grad') and b.fw == 'torch':
            return False
        if name == 'data' and b.fw == 'torch':
            return b
        if name == 'flat':
            return mkav(b.a.reshape(-1), b.dt, b.fw)
        if name == 'name' and b.fw == 'tf':
            raise Undecided('tensor name')
        if bound_method(b, name):
            return ObjV('bound method ' + name, call=lambda ev_, args, kw: method(ev_, b, name, [force(a) for a in args], kw))
        if hasattr_lib(b, name):
            raise Undecided('array attribute ' + name)
        raise AttributeError("array has no attribute %s" % name)
    if isinstance(b, ObjV):
        if name in b.attrs:
            return b.attrs[name]
        if b.kind == 'ctx' and name == 'saved_tensors':
            raise Undecided('saved tensors')
        raise Undecided('attribute %s of %r' % (name, b))
    if isinstance(b, DT):
        if name == 'name':
            return b.name
        if name == 'type':
            return b
        if name == 'is_complex':
            return b.name.startswith('complex')
        if name in ('is_floating', 'is_floating_point'):
            return b.name.startswith('float')
        if name == 'kind':
            return np.dtype(b.name).kind
        if name == 'itemsize':
            return np.dtype(b.name).itemsize
        if name in ('base_dtype', 'as_numpy_dtype', 'real_dtype'):
            return DT(b.name, 'np' if name == 'as_numpy_dtype' else b.fw) if name != 'real_dtype' else DT({'complex64': 'float32', 'complex128': 'float64'}.get(b.name, b.name), b.fw)
        raise Undecided('dtype attribute ' + name)
    if isinstance(b, bool) or b is None or isinstance(b, (str, list, tuple, dict)):
        if isinstance(b, tuple) and name in ('ndims', 'rank'):
            return len(b)
        if isinstance(b, bool) and name in ('real', 'imag'):
            return int(b) if name == 'real' else 0
        raise AttributeError('%s has no attribute %s' % (type(b).__name__, name))
    if isinstance(b, (int, float, complex)):
        if name == 'real':
            return b.real
        if name == 'imag':
            return b.imag
        if name == 'shape' or name == 'ndim' or name == 'dtype' or name == 'size':
            # numpy scalars are represented by python numbers
            if isinstance(b, float) or isinstance(b, complex):
                return {'shape': (), 'ndim': 0, 'size': 1, 'dtype': DT('float64' if isinstance(b, float) else 'complex128')}[name]
            raise AttributeError(name)
        raise AttributeError(name)
    if isinstance(b, SliceVal2):
        return {'start': b.a, 'stop': b.b, 'step': b.c}[name]
    if isinstance(b, HostV):
        if isinstance(b.v, Ext):
            return ev.hostv(Ext(b.v.name + '.' + name))
    raise Undecided('attribute %s of %r' % (name, b))


TORCH_ATTRS = set('grad is_leaf names ndim storage strides nbytes itemsize flags base ctypes'.split())


TORCH_METHODS = set('contiguous is_contiguous view unsqueeze expand permute numpy cpu detach clone to size dim float double item tolist type abs norm flip'.split())


def bound_method(b, name):
    """name is certainly a method of the array"""
    if b.fw in ('np', 'jax'):
        return callable(getattr(np.ndarray, name, None))
    if b.fw == 'torch':
        return name in TORCH_METHODS or (callable(getattr(np.ndarray, name, None)) and name not in TORCH_ATTRS)
    return name in ('numpy', 'get_shape')


def hasattr_lib(b, name):
    if b.fw in ('np', 'jax'):
        return hasattr(np.zeros(1), name) or name in ('at', 'device')
    if b.fw == 'torch':
        return hasattr(np.zeros(1), name) or name in TORCH_ATTRS or True
    return True


# --------------------------------------------------------------------------- methods
def reduce_(ev, b, name, args, kw):
    ax = axis_of(kw, args, 0)
    keep = keep_of(kw, args, 1 if b.fw == 'torch' else None)
    a = b.a
    if b.fw == 'torch' and name in ('max', 'min') and ax is not None:
        raise Undecided('torch max with dim')
    f = {'sum': np.sum, 'mean': np.mean, 'max': np.max, 'min': np.min, 'prod': np.prod, 'any': np.any, 'all': np.all, 'std': np.std, 'var': np.var,
         'argmax': np.argmax, 'argmin': np.argmin}[name]
    if b.fw == 'torch' and name in ('std', 'var'):
        raise Undecided('torch std')
    if b.fw == 'torch' and name == 'mean' and a.dtype.kind in 'iub':
        raise RuntimeError('mean(): could not infer output dtype')
    if name in ('argmax', 'argmin'):
        r = f(a, axis=ax)
    else:
        r = f(a, axis=ax, keepdims=keep)
    r = np.asarray(r)
    dt = nominal(r, [b], b.fw)
    if name in ('argmax', 'argmin'):
        dt = 'int64'
    if 'dtype' in kw and kw['dtype'] is not None:
        dt = dtname(kw['dtype'])
        r = cast(r, dt)
    return ev.wrap(r, dt, b.fw)


def shape_args(args, kw, names=('shape', 'size', 'newshape')):
    for n in names:
        if n in kw:
            return intlist(kw[n])
    args = [force(a) for a in args]
    if len(args) == 1 and isinstance(args[0], (list, tuple, AV)):
        return intlist(args[0])
    return intlist(args)


def do_reshape(b, shape, view):
    if view or b.fw == 'torch':
        try:
            r = np.reshape(b.a, shape, copy=False)
        except ValueError as e:
            if view:
                if 'copy' in str(e):
                    raise RuntimeError('view size is not compatible with input tensor\'s size and stride')
                raise RuntimeError(str(e))
            try:
                r = np.reshape(b.a, shape)
            except ValueError as e2:
                raise RuntimeError(str(e2))
    else:
        try:
            r = np.reshape(b.a, shape)
        except ValueError as e:
            raise ValueError(str(e))
    return mkav(r, b.dt, b.fw)


UNARY_METH = {'sqrt': np.sqrt, 'abs': np.abs, 'exp': np.exp, 'log': np.log, 'conj': np.conj, 'conjugate': np.conj, 'cos': np.cos, 'sin': np.sin,
              'neg': np.negative, 'square': np.square, 'relu': lambda a: np.maximum(a, 0), 'floor': np.floor, 'ceil': np.ceil, 'round': np.round, 'absolute': np.abs,
              'isnan': np.isnan, 'sign': np.sign, 'angle': np.angle, 'rsqrt': lambda a: 1 / np.sqrt(a), 'log2': np.log2, 'cumsum': None}
BIN_METH = {'mul': np.multiply, 'multiply': np.multiply, 'div': np.divide, 'true_divide': np.divide, 'add': np.add, 'sub': np.subtract, 'subtract': np.subtract, 'pow': np.power, 'dot': np.dot,
            'matmul': np.matmul, 'eq': np.equal, 'ne': np.not_equal, 'lt': np.less, 'gt': np.greater, 'ge': np.greater_equal, 'le': np.less_equal,
            'maximum': np.maximum, 'minimum': np.minimum, 'divide': np.divide, 'hypot': np.hypot}


def method(ev, b, name, args, kw):
    if is_av(b):
        return av_method(ev, b, name, args, kw)
    if isinstance(b, str):
        if not hasattr(b, name):
            raise AttributeError(name)
        r = getattr(b, name)(*[strof(x) if not isinstance(x, (str, int, tuple, list)) else deep(x) for x in args], **{k: (v if isinstance(v, (str, int, float)) else strof(v)) for k, v in kw.items()})
        return r
    if isinstance(b, dict):
        if name == 'items':
            return [(k, v) for k, v in b.items()]
        if name == 'keys':
            return list(b)
        if name == 'values':
            return list(b.values())
        if name == 'get':
            return b.get(hashable(args[0]), args[1] if len(args) > 1 else None)
        if name == 'copy':
            return dict(b)
        if name == '__contains__':
            return hashable(args[0]) in b
        raise AttributeError('dict method ' + name)
    if isinstance(b, SetV):
        if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'symmetric_difference', 'copy', 'isdisjoint'):
            s = set(hashable(x) for x in b)
            r = getattr(s, name)(*[set(hashable(y) for y in ev.iterate(x)) for x in args])
            return SetV(sorted(r, key=str)) if isinstance(r, set) else r
        raise AttributeError(name)
    if isinstance(b, (list, tuple)):
        if name == 'index':
            for i, x in enumerate(b):
                if same(deep(x), deep(args[0])):
                    return i
            raise ValueError('not in list')
        if name == 'count':
            return sum(1 for x in b if same(deep(x), deep(args[0])))
        if name == 'copy':
            return list(b)
        if isinstance(b, tuple) and name in ('as_list', 'to_list'):
            return list(b)
        if isinstance(b, tuple) and name == 'numel':
            return int(np.prod(b)) if b else 1
        raise AttributeError(name)
    if isinstance(b, ObjV):
        if b.kind == 'ctx':
            return None
        if name in b.attrs:
            f = b.attrs[name]
            if isinstance(f, ObjV) and f.call:
                return f.call(ev, args, kw)
        raise Undecided('method %s of %r' % (name, b))
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        if name == 'item':
            return b
        if name == 'astype':
            return pyscalar(cast(np.asarray(b), args[0])[()])
        if name in ('is_integer', 'bit_length', 'conjugate', '__index__'):
            return getattr(b, name)()
        if isinstance(b, float) and name in ('sum', 'mean', 'max', 'min', 'all', 'any', 'round', 'tolist', 'copy'):
            return b
        raise AttributeError(name)
    if isinstance(b, DT):
        if name == 'type':
            return call(ev, 'numpy.' + b.name, args, kw)
        raise Undecided('dtype method ' + name)
    if isinstance(b, HostV) and isinstance(b.v, Ext):
        return call(ev, b.v.name + '.' + name, args, kw)
    if b is None or isinstance(b, bool):
        raise AttributeError('NoneType has no attribute ' + name)
    raise Undecided('method %s of %r' % (name, b))


def av_method(ev, b, name, args, kw):
    a = b.a
    fw = b.fw
    if name in ('sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'std', 'var', 'argmax', 'argmin') and fw != 'tf':
        return reduce_(ev, b, name, args, kw)
    if name == 'reshape' and fw != 'tf':
        return do_reshape(b, shape_args(args, kw), False)
    if name == 'view' and fw == 'torch':
        if args and isinstance(args[0], DT):
            raise Undecided('dtype view')
        return do_reshape(b, shape_args(args, kw), True)
    if name == 'astype' and fw in ('np', 'jax'):
        d = dtname(args[0] if args else kw['dtype'])
        return mkav(cast(a, d), d, fw)
    if name == 'copy' and fw in ('np', 'jax'):
        return mkav(a.copy(), b.dt, fw)
    if name in ('flatten', 'ravel') and fw != 'tf':
        return mkav(a.reshape(-1) if name == 'ravel' else a.flatten(), b.dt, fw)
    if name == 'squeeze':
        ax = axis_of(kw, args, 0)
        if fw == 'torch' and ax is not None:
            if isinstance(ax, int) and a.shape[ax] != 1:
                return b
        return ev.wrap(np.squeeze(a, axis=ax), b.dt, fw)
    if name == 'transpose' and fw in ('np', 'jax'):
        ax = intlist(args[0] if len(args) == 1 and not isinstance(args[0], int) else args) if args else None
        return mkav(np.transpose(a, ax), b.dt, fw)
    if name in ('swapaxes', 'transpose', 'swapdims'):
        d = [as_index(x) for x in args] + [as_index(kw[k]) for k in ('dim0', 'dim1', 'axis0', 'axis1') if k in kw]
        return mkav(np.swapaxes(a, *d), b.dt, fw)
    if name == 'tolist':
        return nested(a.tolist())
    if name == 'item':
        if a.size != 1:
            raise ValueError('can only convert an array of size 1')
        return pyscalar(a.reshape(-1)[0])
    if name in UNARY_METH and UNARY_METH[name] is not None and fw != 'tf':
        return ev.result(np.asarray(UNARY_METH[name](a)), (b,), fw)
    if name in ('conj', 'conjugate'):
        return ev.result(np.conj(a), (b,), fw)
    if name == 'cumsum':
        return ev.result(np.cumsum(a, axis=axis_of(kw, args, 0)), (b,), fw)
    if name in BIN_METH and fw != 'tf':
        r = BIN_METH[name](a, raw(args[0]))
        if 'alpha' in kw:
            r = (a + raw(kw['alpha']) * raw(args[0])) if name == 'add' else a - raw(kw['alpha']) * raw(args[0])
        return ev.result(np.asarray(r), (b, args[0]), fw)
    if fw in ('np', 'jax'):
        if name == 'dot':
            return ev.result(np.asarray(np.dot(a, raw(args[0]))), (b, args[0]), fw)
        if name == 'repeat':
            return mkav(np.repeat(a, raw(args[0]), axis_of(kw, args, 1)), b.dt, fw)
        if name in ('fill',):
            r = np.empty_like(a)
            r[...] = raw(args[0])
            return mkav(r, b.dt, fw)
        if name == 'sort':
            return mkav(np.sort(a), b.dt, fw)
        if name in ('nonzero',):
            return tuple(mkav(x, 'int64', fw) for x in np.nonzero(a))
        if name == 'clip':
            return ev.result(np.clip(a, *[raw(x) for x in args]), (b,), fw)
    if fw == 'torch':
        r = torch_method(ev, b, name, args, kw)
        if r is not None:
            return r
    if fw == 'tf':
        if name in ('numpy',):
            return mkav(a, b.dt, 'np')
        if name in ('get_shape',):
            return tuple(a.shape)
    if name in ('block_until_ready',):
        return b
    raise Undecided('array method %s.%s' % (fw, name))


def nested(x):
    return [nested(y) for y in x] if isinstance(x, list) else x


def torch_method(ev, b, name, args, kw):
    a = b.a
    fw = 'torch'
    if name == 'is_contiguous':
        return bool(a.flags['C_CONTIGUOUS'])
    if name == 'stride':
        st = [int(s_) // a.itemsize for s_ in a.strides]
        if args or 'dim' in kw:
            return st[int(args[0] if args else kw['dim'])]
        return tuple(st)
    if name == 'is_non_overlapping_and_dense':
        raise Undecided('is_non_overlapping_and_dense')
    if name == 'contiguous':
        return b if a.flags['C_CONTIGUOUS'] else mkav(np.ascontiguousarray(a), b.dt, fw)
    if name in ('clone',):
        return mkav(a.copy(order='K'), b.dt, fw)
    if name in ('detach', 'cpu', 'requires_grad_', 'resolve_conj', 'resolve_neg', 'cuda'):
        return b
    if name == 'numpy':
        return mkav(a, b.dt, 'np')
    if name in ('nelement', 'numel'):
        return int(a.size)
    if name in ('dim', 'ndimension'):
        return a.ndim
    if name == 'size':
        return tuple(a.shape) if not args else int(a.shape[as_index(args[0])])
    if name == 'unsqueeze':
        return mkav(np.expand_dims(a, axis_of(kw, args, 0)), b.dt, fw)
    if name in ('expand_as',):
        return mkav(np.broadcast_to(a, args[0].a.shape), b.dt, fw)
    if name == 'expand':
        sh = list(shape_args(args, kw))
        off = len(sh) - a.ndim
        sh = [a.shape[i - off] if s == -1 else s for i, s in enumerate(sh)]
        return mkav(np.broadcast_to(a, tuple(sh)), b.dt, fw)
    if name == 'permute':
        return mkav(np.transpose(a, shape_args(args, kw, ('dims',))), b.dt, fw)
    if name in ('new', 'new_empty', 'new_zeros', 'new_ones', 'new_full'):
        sh = shape_args(args[:1] if name == 'new_full' else args, kw)
        v = {'new_ones': 1, 'new_full': raw(args[1]) if len(args) > 1 else 0}.get(name, 0 if name == 'new_zeros' else np.nan if a.dtype.kind in 'fc' else 0)
        r = np.empty(sh, a.dtype)
        r[...] = v
        return mkav(r, b.dt, fw)
    if name == 'repeat':
        return mkav(np.tile(a, shape_args(args, kw)), b.dt, fw)
    if name == 'masked_fill' or name == 'masked_fill_':
        r = a.copy()
        r[np.broadcast_to(raw(args[0]), a.shape)] = raw(args[1])
        return mkav(r, b.dt, fw)
    if name in ('fill_', 'zero_'):
        r = np.empty_like(a)
        r[...] = raw(args[0]) if args else 0
        return mkav(r, b.dt, fw)
    if name.endswith('_') and name[:-1] in BIN_METH:
        r = BIN_METH[name[:-1]](a, raw(args[0]))
        if r.shape != a.shape:
            raise RuntimeError('output shape does not match')
        if r.dtype.kind == 'c' and a.dtype.kind != 'c':
            raise RuntimeError('result type complex cannot be cast')
        return mkav(r, b.dt, fw)
    if name.endswith('_') and name[:-1] in UNARY_METH and UNARY_METH[name[:-1]]:
        return mkav(UNARY_METH[name[:-1]](a), b.dt, fw)
    if name == 'copy_':
        r = np.empty_like(a)
        r[...] = raw(args[0])
        return mkav(r, b.dt, fw)
    if name in ('to', 'type'):
        for x in list(args) + list(kw.values()):
            if isinstance(x, DT):
                return mkav(cast(a, x), x.name, fw)
            if is_av(x):
                return mkav(cast(a, x.dt), x.dt, fw)
        return b
    if name in ('float', 'double', 'half', 'int', 'long', 'bool', 'cfloat'):
        d = {'float': 'float32', 'double': 'float64', 'half': 'float16', 'int': 'int32', 'long': 'int64', 'bool': 'bool', 'cfloat': 'complex64'}[name]
        return mkav(cast(a, d), d, fw)
    if name == 'type_as':
        return mkav(cast(a, args[0].dt), args[0].dt, fw)
    if name in ('split', 'chunk', 'flip', 'roll', 'narrow', 'select', 'unbind', 'norm', 'clamp', 'movedim', 'index_select', 'where', 'tile', 'view_as', 'reshape_as', 'fft'):
        if name in ('view_as', 'reshape_as'):
            return do_reshape(b, args[0].a.shape, name == 'view_as')
        return call(ev, 'torch.' + name, [b] + list(args), kw)
    if name in ('is_complex', 'is_floating_point'):
        return a.dtype.kind == ('c' if name == 'is_complex' else 'f')
    if name in ('register_hook', 'retain_grad'):
        return None
    return None


# --------------------------------------------------------------------------- functions
NP_GENERIC = set('''exp log log2 log10 sqrt abs absolute cos sin tan arctan2 arctan arccos arcsin angle conj conjugate real imag multiply add subtract divide true_divide
floor_divide power square sign floor ceil round around rint maximum minimum fmax fmin where sum mean prod max min amax amin any all cumsum cumprod argmax argmin argsort sort
dot vdot inner outer matmul tensordot einsum concatenate stack vstack hstack dstack tile repeat roll flip fliplr flipud rot90 transpose swapaxes moveaxis
reshape ravel squeeze expand_dims atleast_1d atleast_2d atleast_3d pad diff gcd lcm mod remainder isnan isinf isfinite isreal iscomplex isclose allclose array_equal
meshgrid linspace arange logspace zeros_like ones_like full_like empty_like broadcast_to logical_and logical_or logical_not equal not_equal less less_equal greater greater_equal
hypot sinc sinh cosh tanh median std var clip take nonzero flatnonzero unique searchsorted interp trapz convolve real_if_close nan_to_num array_split split ix_ eye identity diag
log1p expm1 negative positive reciprocal float_power isscalar ndim size shape count_nonzero bincount floor_divide kron cross trace triu tril append insert delete
resize hamming hanning correlate mgrid deg2rad rad2deg iscomplexobj isrealobj result_type can_cast nansum nanmax nanmin nanmean heaviside copysign fabs exp2 ascontiguousarray copy cbrt trunc rollaxis
bitwise_and bitwise_or bitwise_xor invert left_shift right_shift signbit apply_along_axis broadcast_arrays ndindex column_stack'''.split())


def fft_call(ev, short, args, kw, fw):
    x = args[0]
    kw2 = {}
    if short in ('fftfreq', 'rfftfreq'):
        n = as_index(x)
        d = raw(args[1]) if len(args) > 1 else raw(kw.get('d', 1.0))
        return ev.wrap(getattr(np.fft, short)(n, d), 'float64' if fw == 'np' else 'float32', fw)
    if not is_av(x):
        x = AV(arr(x))
    a = x.a
    names = ['n' if short in ('fft', 'ifft', 'rfft', 'irfft') else 's', 'axis' if short in ('fft', 'ifft', 'rfft', 'irfft') else 'axes', 'norm']
    for nm, v in zip(names, args[1:]):
        kw2[nm] = raw(v)
    for k, v in kw.items():
        k = {'dim': names[1], 'name': None}.get(k, k)
        if short in ('fftshift', 'ifftshift') and k is not None:
            k = 'axes'
        if k is not None and k != 'overwrite_x' and k != 'workers':
            kw2[k] = raw(v)
    if short in ('fftshift', 'ifftshift'):
        if len(args) > 1:
            kw2 = {'axes': raw(args[1])}
        return mkav(getattr(np.fft, short)(a, **kw2), x.dt, fw)
    if isinstance(kw2.get('axes'), list):
        kw2['axes'] = tuple(kw2['axes'])
    if fw == 'torch' and short in ('fft', 'ifft') and a.dtype.kind not in 'cf':
        raise RuntimeError('unsupported dtype')
    f = getattr(np.fft, short, None)
    if f is None:
        raise Undecided('fft function ' + short)
    r = f(a, **kw2)
    single = x.dt in ('float32', 'complex64', 'float16')
    keep = fw in ('torch', 'tf', 'jax', 'scipy') or (fw == 'np' and single)
    if fw == 'npfft':
        keep = single
    cplx = r.dtype.kind == 'c'
    dt = ('complex64' if cplx else 'float32') if keep and single else ('complex128' if cplx else 'float64')
    return mkav(r, dt, 'np' if fw in ('scipy', 'npfft') else fw)


def np_generic(ev, short, args, kw, fw):
    f = getattr(np, short, None)
    if f is None:
        raise AttributeError('numpy.' + short)
    a = [raw(x) for x in args]
    k = {}
    dt = None
    for key, v in kw.items():
        if key == 'dtype':
            dt = dtname(v)
            continue
        if key == 'name':
            continue
        k[key] = raw(v)
    for key in ('axis', 'axes'):
        if isinstance(k.get(key), list):
            k[key] = tuple(k[key])
    if short in ('reshape', 'broadcast_to', 'tile') and len(a) > 1 and isinstance(a[1], np.ndarray):
        a[1] = tuple(int(i) for i in a[1])
    r = f(*a, **k)
    if isinstance(r, (tuple, list)):
        out = [ev.result(np.asarray(x), args, fw) for x in r]
        return tuple(out) if isinstance(r, tuple) and short != 'split' else out
    if isinstance(r, (bool, int, float, complex, str)):
        return r
    if short == 'shape':
        return tuple(r)
    r = np.asarray(r)
    d = nominal(r, collect([x for x in args]), fw)
    if short in ('argmax', 'argmin', 'argsort', 'searchsorted', 'bincount'):
        d = str(r.dtype)
    if short in ('zeros_like', 'ones_like', 'full_like', 'empty_like') and is_av(args[0]):
        d = args[0].dt
    if dt is not None:
        d = dt
        r = cast(r, d)
    if not any(is_av(x) for x in collect(args)) and fw == 'jax':
        d = {'float64': 'float32', 'complex128': 'complex64'}.get(d, d)
    return ev.wrap(r, d, fw)


def mkarray(ev, args, kw, fw):
    v = force(args[0])
    dt = kw.get('dtype', args[1] if len(args) > 1 else None)
    if isinstance(dt, (AV,)):
        dt = None
    d = dtname(dt) if dt is not None else None
    if isinstance(dt, HostV) and getattr(dt.v, 'name', '') in ('builtins.object', 'numpy.object_') or dt == 'object':
        return mkav(np.array(raw(deep(v)), dtype=object), 'object', fw)
    leaves = collect([v])
    a = np.array(raw(deep(v)))
    if a.dtype == object:
        raise ValueError('inhomogeneous shape')
    if a.dtype.kind in 'US':
        raise Undecided('string array')
    if d is None:
        d = nominal(a, leaves, fw)
        if not any(is_av(x) for x in leaves) and fw in ('torch', 'tf', 'jax'):
            d = {'float64': 'float32', 'complex128': 'complex64'}.get(d, d)
    else:
        a = cast(a, d)
    return mkav(a, d, fw)


def alloc(ev, short, args, kw, fw):
    base = short.replace('_like', '')
    if short.endswith('_like'):
        x = args[0]
        d = dtname(kw.get('dtype')) or x.dt
        sh = x.a.shape
        rest = args[1:]
    else:
        if fw == 'torch' and base != 'full':
            sh = shape_args(args, kw)
            rest = []
        else:
            sh = intlist(args[0]) if args else intlist(kw.get('shape', kw.get('size')))
            rest = args[1:]
        d = kw.get('dtype')
        if d is None and fw != 'torch' and base != 'full' and rest:
            d = rest[0]
        d = dtname(d)
        if d is None:
            d = 'float64' if fw == 'np' else 'float32'
            if base == 'full':
                fv = raw(rest[0] if rest else kw['fill_value'])
                d = {'i': 'int64', 'f': d, 'c': 'complex64' if fw != 'np' else 'complex128', 'b': 'bool'}[np.asarray(fv).dtype.kind]
    st = {'float32': 'float64', 'complex64': 'complex128', 'float16': 'float64'}.get(d, d)
    r = np.zeros(sh, st)
    if base == 'ones':
        r[...] = 1
    elif base == 'full':
        r[...] = raw(rest[0] if rest else kw['fill_value'])
    elif base == 'empty' and np.dtype(st).kind in 'fc':
        r[...] = np.nan
    return mkav(r, d, fw)


def tf_pad(a, paddings, mode, value=0):
    p = [tuple(int(y) for y in raw(x)) for x in (paddings.tolist() if isinstance(paddings, np.ndarray) else paddings)]
    if len(p) != a.ndim:
        raise ValueError('paddings rank mismatch')
    m = mode.lower()
    if m == 'constant':
        return np.pad(a, p, mode='constant', constant_values=value)
    if m not in ('reflect', 'symmetric'):
        raise ValueError('Unknown padding mode')
    for (l, r), n in zip(p, a.shape):
        if max(l, r) > (n - 1 if m == 'reflect' else n):
            raise ValueError('paddings must be less than the dimension size')
    return np.pad(a, p, mode=m)


def torch_pad(x, pads, mode='constant', value=0):
    a = x.a
    pads = intlist(pads)
    if len(pads) % 2:
        raise RuntimeError('Padding length must be divisible by 2')
    k = len(pads) // 2
    if k > a.ndim:
        raise RuntimeError('Padding length too large')
    p = [(0, 0)] * (a.ndim - k) + [(pads[2 * (k - 1 - i)], pads[2 * (k - 1 - i) + 1]) for i in range(k)]
    if mode == 'constant':
        crop = tuple(slice(-l if l < 0 else 0, (r if r < 0 else None)) for l, r in p)
        a = a[crop]
        return mkav(np.pad(a, [(max(l, 0), max(r, 0)) for l, r in p], mode='constant', constant_values=0 if value is None else value), x.dt, 'torch')
    if mode not in ('reflect', 'replicate', 'circular'):
        raise NotImplementedError('Unrecognised padding mode ' + str(mode))
    if not (a.ndim - k in (1, 2) and k in (1, 2, 3)):
        raise NotImplementedError('Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now')
    for (l, r), n in zip(p, a.shape):
        if mode == 'reflect' and (l >= n or r >= n) and (l or r):
            raise RuntimeError('Padding size should be less than the corresponding input dimension')
    return mkav(np.pad(a, p, mode={'reflect': 'reflect', 'replicate': 'edge', 'circular': 'wrap'}[mode]), x.dt, 'torch')


def cat(ev, args, kw, fw, stack):
    seq = force(args[0] if args else kw.get('tensors', kw.get('values', kw.get('arrays'))))
    ax = axis_of(kw, args, 1)
    if ax is None:
        ax = 0
    if isinstance(seq, (dict, int, float)) or seq is None:
        raise TypeError('expected a sequence of tensors')
    items = [force(x) for x in ev.iterate(seq)]
    if fw == 'torch' and not all(is_av(x) and x.fw == 'torch' for x in items):
        raise TypeError('expected Tensor')
    arrs = [arr(x) for x in items]
    if not arrs:
        raise ValueError('need at least one array to stack') if fw != 'torch' else RuntimeError('expects a non-empty TensorList')
    if stack and any(x.shape != arrs[0].shape for x in arrs):
        raise (RuntimeError if fw == 'torch' else ValueError)('all input arrays must have the same shape')
    try:
        r = np.stack(arrs, axis=ax) if stack else np.concatenate(arrs, axis=ax)
    except ValueError as e:
        raise (RuntimeError if fw == 'torch' else ValueError)(str(e))
    return mkav(r, nominal(r, collect(items), fw), fw)


def split_(x, size, ax, fw):
    a = x.a
    if ax is None:
        ax = 0
    n = a.shape[ax]
    if fw == 'torch':
        if isinstance(size, int):
            b = list(range(size, n, size))
        else:
            s = intlist(size)
            if sum(s) != n:
                raise RuntimeError('split sizes')
            b = list(np.cumsum(s)[:-1])
    else:
        if isinstance(size, int):
            if n % size:
                raise ValueError('dimension not divisible')
            b = list(range(n // size, n, n // size)) if size else []
        else:
            s = intlist(size)
            b = list(np.cumsum(s)[:-1])
    return [mkav(y, x.dt, fw) for y in np.split(a, b, axis=ax)]


def call(ev, name, args, kw, node=None):
    top = name.split('.')[0]
    short = name.split('.')[-1]
    if top == 'builtins':
        return builtin(ev, short if name.count('.') == 1 else name[9:], args, kw)
    if top == 'math':
        a = [x.a.item() if is_av(x) and x.a.size == 1 else x for x in args]
        if any(not isinstance(x, (int, float)) for x in a):
            raise TypeError('must be real number')
        return getattr(math, short)(*a)
    if top == 'copy':
        return args[0]
    if name == 'os.fspath':
        return args[0]
    if name.startswith('os.path.'):
        import posixpath
        return getattr(posixpath, short)(*[deep(a) for a in args])
    if name == 'functools.reduce':
        raise Undecided('reduce')
    if name == 'collections.Counter':
        d = {}
        for x in ev.iterate(args[0]):
            k = hashable(x)
            d[k] = d.get(k, 0) + 1
        return d
    if top == 'itertools':
        import itertools
        its = [ev.iterate(a) if isinstance(a, (list, tuple, str, dict, AV)) else a for a in args]
        return [tuple(x) if isinstance(x, tuple) else x for x in getattr(itertools, short)(*its, **kw)]
    if top in ('warnings', 'logging'):
        return None
    if top == 'numpy':
        return np_call(ev, name, short, args, kw, 'np')
    if top == 'jax':
        if name in ('jax.jit', 'jax.vmap'):
            raise Undecided(name)
        return np_call(ev, name, short, args, kw, 'jax')
    if top == 'scipy':
        if name.startswith('scipy.fft') or name.startswith('scipy.fftpack'):
            return fft_call(ev, short, args, kw, 'scipy')
        if name.startswith('scipy.special'):
            a = [raw(x) for x in args]
            if short in ('sph_harm', 'lpmv', 'factorial', 'gamma', 'comb', 'binom', 'erf'):
                if short == 'sph_harm':
                    m, n, th, ph = a
                    r = scipy.special.sph_harm_y(n, m, ph, th)
                else:
                    r = getattr(scipy.special, short)(*a, **{k: raw(v) for k, v in kw.items()})
                return ev.result(np.asarray(r), args, 'np')
        if name == 'scipy.ndimage.fourier.fourier_shift':
            raise Undecided(name)
        raise Undecided('library function ' + name)
    if top == 'torch':
        return torch_call(ev, name, short, args, kw)
    if top == 'tensorflow':
        return tf_call(ev, name, short, args, kw)
    raise Undecided('library function ' + name)


def np_call(ev, name, short, args, kw, fw):
    if any(is_av(x) and x.fw == 'tf' for x in collect(args)) and fw == 'np':
        fw = 'np'
    if '.fft.' in name or name.endswith('.fft'):
        return fft_call(ev, short, args, kw, 'npfft' if fw == 'np' else fw)
    if short in ('array', 'asarray', 'asanyarray'):
        if short != 'array' and is_av(args[0]) and not kw and len(args) == 1:
            return mkav(args[0].a, args[0].dt, fw)
        return mkarray(ev, args, kw, fw)
    if short in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like'):
        return alloc(ev, short, args, kw, fw)
    if DTALIAS.get(short, short) in DTNAMES or short in DTNAMES:
        d = {'single': 'float32', 'double': 'float64', 'bool_': 'bool', 'csingle': 'complex64', 'cdouble': 'complex128', 'float_': 'float64', 'int_': 'int64', 'complex_': 'complex128'}.get(short, short)
        v = force(args[0]) if args else 0
        a = cast(arr(deep(v)), d)
        if a.ndim == 0 and fw == 'np':
            return pyscalar(a[()])
        return mkav(a, d, fw)
    if short in ('stack', 'concatenate'):
        return cat(ev, args, kw, fw, short == 'stack')
    if short in ('pad',):
        x = args[0]
        pads = raw(args[1] if len(args) > 1 else kw['pad_width'])
        mode = args[2] if len(args) > 2 else kw.get('mode', 'constant')
        extra = {k: raw(v) for k, v in kw.items() if k not in ('mode', 'pad_width')}
        r = np.pad(arr(x), pads, mode=mode, **extra)
        return mkav(r, nominal(r, [x], fw), fw)
    if short in ('seterr', 'errstate', 'set_printoptions'):
        return {}
    if short in ('dtype',):
        return DT(dtname(args[0]), fw)
    if short == 'issubdtype':
        a, b = args
        k = np.dtype(dtname(a)).kind
        bn = b.v.name.split('.')[-1] if isinstance(b, HostV) else dtname(b)
        return {'floating': k == 'f', 'complexfloating': k == 'c', 'integer': k in 'iu', 'number': k in 'iufc', 'inexact': k in 'fc'}.get(bn, dtname(a) == bn)
    if short == 'isscalar':
        return isinstance(args[0], (int, float, complex, str))
    if short in ('iscomplexobj', 'isrealobj'):
        c = arr(args[0]).dtype.kind == 'c'
        return c if short == 'iscomplexobj' else not c
    if short in ('max', 'min', 'amax', 'amin') and fw == 'np' and args and isinstance(args[0], (list, tuple)) and not args[0]:
        raise ValueError('zero-size array')
    if short in NP_GENERIC:
        return np_generic(ev, short, args, kw, fw)
    if name.endswith('linalg.norm'):
        return ev.result(np.asarray(np.linalg.norm(*[raw(a) for a in args], **{k: raw(v) for k, v in kw.items()})), args, fw)
    if name == 'jax.lax.stop_gradient' or name in ('jax.device_put',):
        return args[0]
    if name == 'jax.device_get':
        return mkav(args[0].a, args[0].dt, 'np') if is_av(args[0]) else args[0]
    if '.lax.' in name or '.device_' in name:
        raise Undecided(name)
    if fw == 'np' and not hasattr(np, short) and name.count('.') == 1 and short not in ('product', 'cumproduct', 'in1d', 'trapz', 'row_stack', 'alltrue', 'sometrue', 'asfarray', 'msort', 'float_', 'unicode_'):
        raise AttributeError(name)
    raise Undecided('library function ' + name)


TORCH_ELT = {'sqrt': np.sqrt, 'abs': np.abs, 'exp': np.exp, 'log': np.log, 'cos': np.cos, 'sin': np.sin, 'square': np.square, 'conj': np.conj, 'floor': np.floor,
             'ceil': np.ceil, 'relu': lambda a: np.maximum(a, 0), 'neg': np.negative, 'rsqrt': lambda a: 1 / np.sqrt(a), 'sign': np.sign, 'round': np.round, 'angle': np.angle, 'log2': np.log2, 'isnan': np.isnan, 'absolute': np.abs}
TORCH_BIN = {'mul': np.multiply, 'add': np.add, 'sub': np.subtract, 'div': np.divide, 'pow': np.power, 'maximum': np.maximum, 'minimum': np.minimum, 'matmul': np.matmul,
             'hypot': np.hypot, 'multiply': np.multiply, 'subtract': np.subtract, 'divide': np.divide, 'eq': np.equal, 'atan2': np.arctan2}


def torch_call(ev, name, short, args, kw):
    fw = 'torch'
    if name.startswith('torch.fft.'):
        return fft_call(ev, short, args, kw, fw)
    if name in ('torch.fft', 'torch.ifft', 'torch.rfft', 'torch.irfft'):
        raise AttributeError('torch.%s removed' % short)
    if short in ('tensor', 'as_tensor'):
        return mkarray(ev, args, kw, fw)
    if short == 'Parameter':
        return args[0]
    if short == 'from_numpy':
        x = args[0]
        if not (is_av(x) and x.fw == 'np'):
            raise TypeError('expected np.ndarray')
        return mkav(x.a, x.dt, fw)
    if short in ('is_tensor',):
        return is_av(args[0]) and args[0].fw == 'torch'
    if short in ('is_complex', 'is_floating_point'):
        return args[0].a.dtype.kind == ('c' if short == 'is_complex' else 'f')
    if short == 'view_as_complex':
        x = args[0]
        if x.a.shape[-1] != 2:
            raise RuntimeError('Tensor must have a last dimension of size 2')
        if x.a.dtype.kind != 'f':
            raise RuntimeError('view_as_complex is only supported for floating')
        return mkav(x.a[..., 0] + 1j * x.a[..., 1], {'float32': 'complex64', 'float64': 'complex128'}[x.dt], fw)
    if short == 'view_as_real':
        x = args[0]
        if x.a.dtype.kind != 'c':
            raise RuntimeError('view_as_real is only supported for complex tensors')
        return mkav(np.stack([x.a.real, x.a.imag], axis=-1), {'complex64': 'float32', 'complex128': 'float64'}[x.dt], fw)
    if short in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like'):
        return alloc(ev, short, args, kw, fw)
    if short in ('stack', 'cat', 'concat', 'concatenate'):
        return cat(ev, args, kw, fw, short == 'stack')
    if short in TORCH_ELT:
        return ev.result(np.asarray(TORCH_ELT[short](arr(args[0]))), args, fw)
    if short in TORCH_BIN:
        return ev.result(np.asarray(TORCH_BIN[short](raw(args[0]), raw(args[1]))), args, fw)
    if short in ('sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'argmax'):
        return reduce_(ev, args[0], short, args[1:], kw)
    if short in ('reshape', 'squeeze', 'unsqueeze', 'transpose', 'permute', 'flatten', 'swapaxes', 'swapdims', 'clone', 'numel', 'ravel'):
        return av_method(ev, args[0], short, args[1:], kw)
    if short in ('real', 'imag'):
        return attribute(ev, args[0], short)
    if short == 'complex':
        return mkav(args[0].a + 1j * args[1].a, {'float32': 'complex64'}.get(args[0].dt, 'complex128'), fw)
    if short == 'polar':
        return mkav(args[0].a * np.exp(1j * args[1].a), {'float32': 'complex64'}.get(args[0].dt, 'complex128'), fw)
    if short == 'split':
        return tuple(split_(args[0], args[1] if len(args) > 1 else kw.get('split_size_or_sections'), axis_of(kw, args, 2), fw))
    if short == 'chunk':
        raise Undecided('chunk')
    if short == 'unbind':
        ax = axis_of(kw, args, 1) or 0
        return tuple(mkav(np.take(args[0].a, i, axis=ax), args[0].dt, fw) for i in range(args[0].a.shape[ax]))
    if short == 'flip':
        return mkav(np.flip(args[0].a, axis=shape_args(args[1:], kw, ('dims',))), args[0].dt, fw)
    if short == 'roll':
        return mkav(np.roll(args[0].a, raw(args[1] if len(args) > 1 else kw['shifts']), axis=axis_of(kw, args, 2, ('dims',))), args[0].dt, fw)
    if short in ('narrow', 'select'):
        ax, i = as_index(args[1]), as_index(args[2])
        a = args[0].a
        sl = [slice(None)] * a.ndim
        sl[ax] = slice(i, i + as_index(args[3])) if short == 'narrow' else i
        return mkav(a[tuple(sl)], args[0].dt, fw)
    if short == 'movedim':
        return mkav(np.moveaxis(args[0].a, raw(args[1]), raw(args[2])), args[0].dt, fw)
    if short in ('clamp', 'clip'):
        return mkav(np.clip(args[0].a, raw(args[1]) if len(args) > 1 else kw.get('min'), raw(args[2]) if len(args) > 2 else kw.get('max')), args[0].dt, fw)
    if short == 'where' and len(args) == 3:
        return ev.result(np.where(*[raw(a) for a in args]), args[1:], fw)
    if short == 'norm':
        if 'dim' in kw and not kw.get('p'):
            return ev.result(np.sqrt(np.sum(np.abs(args[0].a) ** 2, axis=axis_of(kw, args), keepdims=keep_of(kw, args))), args[:1], fw)
        raise Undecided('torch.norm')
    if name in ('torch.nn.functional.pad',):
        return torch_pad(args[0], args[1] if len(args) > 1 else kw['pad'], args[2] if len(args) > 2 else kw.get('mode', 'constant'),
                         raw(args[3]) if len(args) > 3 else raw(kw.get('value', 0)))
    if short in ('ReflectionPad2d', 'ReflectionPad1d', 'ReplicationPad2d', 'ZeroPad2d', 'CircularPad2d'):
        p = intlist(args[0] if args else kw['padding'])
        nd = 1 if short.endswith('1d') else 2
        if len(p) == 1:
            p = p * (2 * nd)
        mode = {'R': 'reflect' if short.startswith('Refl') else 'replicate', 'Z': 'constant', 'C': 'circular'}[short[0]]
        return ObjV(short, {}, lambda e, a, k: torch_pad(a[0], p, mode))
    if short in ('no_grad', 'enable_grad', 'set_grad_enabled', 'device'):
        return ObjV(short)
    if short == 'arange':
        r = np.arange(*[raw(a) for a in args])
        return mkav(r, 'int64' if r.dtype.kind in 'iu' else 'float32', fw)
    raise Undecided('library function ' + name)


TF_ELT = {'sqrt': np.sqrt, 'abs': np.abs, 'exp': np.exp, 'cos': np.cos, 'sin': np.sin, 'square': np.square, 'conj': np.conj, 'log': np.log, 'floor': np.floor, 'ceil': np.ceil,
          'negative': np.negative, 'angle': np.angle, 'sign': np.sign, 'rsqrt': lambda a: 1 / np.sqrt(a)}
TF_BIN = {'multiply': np.multiply, 'add': np.add, 'subtract': np.subtract, 'divide': np.divide, 'pow': np.power, 'maximum': np.maximum, 'minimum': np.minimum, 'matmul': np.matmul,
          'floordiv': np.floor_divide, 'equal': np.equal}


def tfx(v):
    """converted to a tf tensor"""
    v = force(v)
    if is_av(v):
        return v if v.fw == 'tf' else mkav(v.a, v.dt, 'tf')
    a = np.asarray(raw(deep(v)))
    if a.dtype == object:
        raise ValueError('cannot convert to tensor')
    d = {'float64': 'float32', 'complex128': 'complex64'}.get(str(a.dtype), str(a.dtype))
    lv = collect([v])
    if any(is_av(x) for x in lv):
        d = nominal(a, lv, 'tf')
    return mkav(a, d, 'tf')


def tf_call(ev, name, short, args, kw):
    fw = 'tf'
    kw = {k: v for k, v in kw.items() if k != 'name'}
    if short == 'TensorShape':
        return tuple(x if x is None else int(raw(x)) for x in (ev.iterate(args[0])))
    if '.signal.' in name:
        m = {'fft': 'fft', 'ifft': 'ifft', 'fft2d': 'fft2', 'ifft2d': 'ifft2', 'fft3d': 'fftn', 'ifft3d': 'ifftn'}
        if short in m:
            x = tfx(args[0])
            if x.a.dtype.kind != 'c':
                raise TypeError('tf.signal.%s expects a complex tensor' % short)
            if short.endswith('3d'):
                f = np.fft.fftn if short == 'fft3d' else np.fft.ifftn
                r = f(x.a, axes=(-3, -2, -1))
            else:
                r = getattr(np.fft, m[short])(x.a)
            return mkav(r, x.dt, fw)
        if short in ('fftshift', 'ifftshift'):
            return mkav(getattr(np.fft, short)(arr(args[0]), axes=axis_of(kw, args, 1, ('axes',))), args[0].dt, fw)
        raise Undecided(name)
    if short in ('stack', 'concat'):
        return cat(ev, args, kw, fw, short == 'stack')
    if short in TF_ELT:
        x = tfx(args[0])
        r = TF_ELT[short](x.a)
        return ev.result(np.asarray(r), (x,), fw)
    if short in ('real', 'imag'):
        x = tfx(args[0])
        d = {'complex64': 'float32', 'complex128': 'float64'}.get(x.dt, x.dt)
        return mkav(x.a.real if short == 'real' else x.a.imag, d, fw)
    if short in TF_BIN:
        x = [tfx(a) for a in args] + [tfx(v) for k, v in kw.items() if k in ('x', 'y')]
        return ev.result(np.asarray(TF_BIN[short](x[0].a, x[1].a)), x, fw)
    if short.startswith('reduce_'):
        x = tfx(args[0])
        f = {'sum': np.sum, 'mean': np.mean, 'max': np.max, 'min': np.min, 'prod': np.prod, 'any': np.any, 'all': np.all}[short[7:]]
        r = np.asarray(f(x.a, axis=axis_of(kw, args, 1), keepdims=keep_of(kw, args, 2)))
        return mkav(r, nominal(r, [x], fw), fw)
    if short == 'reshape':
        x = tfx(args[0])
        try:
            return mkav(np.reshape(x.a, intlist(args[1] if len(args) > 1 else kw['shape'])), x.dt, fw)
        except ValueError as e:
            raise ValueError(str(e))
    if short == 'shape':
        return mkav(np.array(tfx(args[0]).a.shape, dtype=np.int64), 'int32', fw)
    if short == 'rank':
        return mkav(np.array(tfx(args[0]).a.ndim), 'int32', fw)
    if short == 'size':
        return mkav(np.array(tfx(args[0]).a.size), 'int32', fw)
    if short == 'cast':
        d = dtname(args[1] if len(args) > 1 else kw['dtype'])
        return mkav(cast(arr(args[0]), d), d, fw)
    if short == 'pad':
        x = tfx(args[0])
        p = args[1] if len(args) > 1 else kw['paddings']
        mode = args[2] if len(args) > 2 else kw.get('mode', 'CONSTANT')
        return mkav(tf_pad(x.a, raw(deep(p)), mode, raw(kw.get('constant_values', 0))), x.dt, fw)
    if short in ('expand_dims',):
        x = tfx(args[0])
        return mkav(np.expand_dims(x.a, axis_of(kw, args, 1)), x.dt, fw)
    if short == 'squeeze':
        x = tfx(args[0])
        return mkav(np.squeeze(x.a, axis=axis_of(kw, args, 1)), x.dt, fw)
    if short == 'split':
        return split_(tfx(args[0]), force(args[1] if len(args) > 1 else kw['num_or_size_splits']), axis_of(kw, args, 2), fw)
    if short == 'unstack':
        ax = axis_of(kw, args, 2) or 0
        x = tfx(args[0])
        return [mkav(np.take(x.a, i, axis=ax), x.dt, fw) for i in range(x.a.shape[ax])]
    if short == 'matrix_transpose':
        x = tfx(args[0])
        return mkav(np.swapaxes(x.a, -1, -2), x.dt, fw)
    if short == 'transpose':
        x = tfx(args[0])
        p = args[1] if len(args) > 1 else kw.get('perm')
        return mkav(np.transpose(x.a, None if p is None else intlist(p)), x.dt, fw)
    if short in ('convert_to_tensor', 'constant', 'identity', 'Variable', 'stop_gradient'):
        x = tfx(args[0])
        d = kw.get('dtype', args[1] if len(args) > 1 and short in ('convert_to_tensor', 'constant') else None)
        if d is not None:
            return mkav(cast(x.a, d), dtname(d), fw)
        return x
    if short in ('is_tensor',):
        return is_av(args[0]) and args[0].fw == 'tf'
    if short == 'complex':
        a, b = tfx(args[0]), tfx(args[1])
        return mkav(a.a + 1j * b.a, {'float32': 'complex64'}.get(a.dt, 'complex128'), fw)
    if short in ('zeros', 'ones', 'zeros_like', 'ones_like', 'fill'):
        if short == 'fill':
            return mkav(np.full(intlist(args[0]), raw(args[1])), 'float32', fw)
        return alloc(ev, short, args, kw, fw)
    if short == 'tile':
        x = tfx(args[0])
        return mkav(np.tile(x.a, intlist(args[1])), x.dt, fw)
    if short in ('roll', 'reverse'):
        x = tfx(args[0])
        if short == 'reverse':
            return mkav(np.flip(x.a, axis=axis_of(kw, args, 1)), x.dt, fw)
        return mkav(np.roll(x.a, raw(args[1] if len(args) > 1 else kw['shift']), axis=axis_of(kw, args, 2)), x.dt, fw)
    if short == 'where' and len(args) == 3:
        return ev.result(np.where(*[raw(a) for a in args]), args[1:], fw)
    if short in ('name_scope', 'GradientTape', 'device', 'control_dependencies'):
        return ObjV(short)
    if short in ('range',):
        r = np.arange(*[raw(a) for a in args])
        return mkav(r, 'int32', fw)
    if short in ('gather',):
        x = tfx(args[0])
        return mkav(np.take(x.a, raw(args[1]), axis=axis_of(kw, args) or 0), x.dt, fw)
    raise Undecided('library function ' + name)


def builtin(ev, short, args, kw):
    v = args[0] if args else None
    if short == 'zip':
        return [tuple(t) for t in zip(*[ev.iterate(a) for a in args])]
    if short == 'int':
        if not args:
            return 0
        if is_av(v):
            return int(v.a.item()) if v.a.size == 1 else _te()
        if v is None or isinstance(v, (list, tuple, dict)):
            _te()
        return int(v) if not isinstance(v, str) else int(v, *[raw(x) for x in args[1:]])
    if short == 'float':
        if is_av(v):
            return float(v.a.item()) if v.a.size == 1 else _te()
        return float(v)
    if short == 'bool':
        return ev.truth(v)
    if short == 'complex':
        return complex(*[raw(x) for x in args])
    if short == 'abs':
        if is_av(v):
            return ev.result(np.abs(v.a), (v,), v.fw)
        return abs(v)
    if short == 'round':
        if is_av(v):
            return ev.result(np.round(v.a, *[raw(x) for x in args[1:]]), (v,), v.fw)
        return round(v, *[raw(x) for x in args[1:]])
    if short == 'pow':
        return ev.binop('pow', lambda a, b: a ** b, args[0], args[1])
    if short == 'divmod':
        return (ev.binop('floordiv', lambda a, b: a // b, args[0], args[1]), ev.binop('mod', lambda a, b: a % b, args[0], args[1]))
    if short == 'sum':
        items = [force(x) for x in ev.iterate(v)]
        acc = args[1] if len(args) > 1 else 0
        for x in items:
            acc = ev.binop('add', lambda a, b: a + b, acc, x)
        return acc
    if short in ('any', 'all'):
        f = any if short == 'any' else all
        return f(ev.truth(force(x)) for x in ev.iterate(v))
    if short == 'str' or short == 'repr':
        return strof(v)
    if short == 'tuple':
        return tuple(force(x) for x in ev.iterate(v))
    if short == 'list':
        return list(ev.iterate(v))
    if short == 'reversed':
        return list(reversed(ev.iterate(v)))
    if short == 'next':
        it = ev.iterate(v)
        if it:
            return it[0]
        if len(args) > 1:
            return args[1]
        raise PyRaise('StopIteration', None)
    if short in ('min_key', 'max_key'):
        items = ev.iterate(args[0])
        keys = [orderable(deep(k)) for k in ev.iterate(args[1])]
        f = min if short == 'min_key' else max
        return items[f(range(len(items)), key=lambda i: keys[i])]
    if short == 'type':
        if is_av(v):
            return HostV(Ext({'np': 'numpy.ndarray', 'torch': 'torch.Tensor', 'tf': 'tensorflow.Tensor', 'jax': 'jax.Array'}[v.fw]))
        return HostV(Ext('builtins.' + type(v).__name__))
    if short == 'hasattr':
        if is_av(v):
            try:
                attribute(ev, v, args[1])
                return True
            except AttributeError:
                return False
            except Undecided:
                if v.fw == 'np':
                    return hasattr(np.zeros(1), args[1])
                raise
        if isinstance(v, (list, tuple, dict, str, int, float)) or v is None:
            return hasattr(v, args[1])
        raise Undecided('hasattr')
    if short == 'getattr':
        try:
            return attribute(ev, v, args[1])
        except AttributeError:
            if len(args) > 2:
                return args[2]
            raise
    if short == 'callable':
        return isinstance(v, HostV) or (isinstance(v, ObjV) and v.call is not None)
    if short == 'ord':
        return ord(v)
    if short == 'slice':
        a = [raw(x) for x in args]
        return SliceVal2(None, a[0], None) if len(a) == 1 else SliceVal2(a[0], a[1], a[2] if len(a) > 2 else None)
    if short == 'range':
        return list(range(*[as_range(x) for x in args]))
    if short == 'print':
        return None
    raise Undecided('builtin ' + short)
