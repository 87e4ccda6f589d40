#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

K = "kymatio/"
S1, S2, S3 = K+"scattering1d/", K+"scattering2d/", K+"scattering3d/"

p("C01", "Every frontend computes the same scattering transform",
  "For the same constructor parameters and the same input, the NumPy, PyTorch, TensorFlow and JAX frontends of the 1D, "
  "2D, 3D and time-frequency transforms return the same coefficients in the same layout and order, up to floating-point "
  "rounding. In particular the Fourier transforms, Fourier multiplication, modulus, Fourier-domain subsampling, padding, "
  "unpadding, averaging and stacking that each backend supplies are the same mathematical operations with the same normalisation.",
  ["inputs", "configurations"], "every input array, every legal parameter setting and every frontend",
  "The tests compare each frontend with stored reference values at a handful of parameter settings; agreement for all "
  "sizes, scales, strides, output formats and batch shapes is a statement about pairs of programs.",
  [K+"backend/", S1+"backend/", S2+"backend/", S3+"backend/", S1+"frontend/", S2+"frontend/", S3+"frontend/"],
  [("per-framework backend classes", K+"backend/, "+S1+"backend/, "+S2+"backend/, "+S3+"backend/"),
   ("per-framework frontends calling one shared core", S1+"core/scattering1d.py, "+S2+"core/scattering2d.py, "+S3+"core/scattering3d.py")],
  ["return value of Scattering*(…)(x) under each frontend"])

p("C02", "Every constructor parameter takes effect on every frontend",
  "Each documented constructor argument (J, shape, Q, T, stride, L, max_order, oversampling, out_type, pre_pad, "
  "sigma_0, integral_powers, method, rotation_covariant, J_fr, Q_fr, F, stride_fr, format, backend) given to any "
  "frontend class, positionally or by keyword, reaches the transform with its own value and default. No frontend drops, swaps, "
  "hard-codes or re-defaults one.",
  ["configurations"], "all constructor arguments, positional or keyword, of all frontend classes",
  "Tests instantiate most frontends at default settings; a parameter lost or swapped in one class's constructor chain changes "
  "the output only at the settings nobody runs there.",
  [S1+"frontend/", S2+"frontend/", S3+"frontend/", K+"frontend/"],
  [("constructor forwarding chains", "*_frontend.py __init__ of each dimension"), ("keras build()", "*/keras_frontend.py")],
  ["attributes and outputs of the constructed object"])

p("C03", "A transform call is pure and history-independent",
  "Calling a scattering object, or asking for its metadata or output size, never modifies the input, the filters or the parameters "
  "of the object, nor any shared module state. Consequently the result of a call depends only on the construction parameters and "
  "the input, not on previous calls, other instances, time, environment or randomness.",
  ["inputs", "histories"], "all inputs and all sequences of calls on one or more objects",
  "A test calls an object once or twice; state leaking from one call to the next, or an in-place write to a caller's array, "
  "appears only for particular histories and aliasing patterns.",
  [S1+"core/", S2+"core/", S3+"core/", S1+"frontend/", S2+"frontend/", S3+"frontend/", S1+"backend/", S2+"backend/", S3+"backend/"],
  [("functional cores (generators/lists)", "*/core/*.py"), ("frontends store only construction-time attributes", "*/frontend/base_frontend.py")],
  ["input buffers and object attributes after a call; repeated calls"],
  [("filters", "filter tables computed at construction", "create_filters of each base frontend")])

p("C04", "Leading batch axes are preserved and never mixed",
  "For every frontend and any number of leading batch axes (including none), the coefficients computed for one element of the batch "
  "equal those computed for that element alone, and the output keeps exactly the leading axes of the input, followed by the channel "
  "and signal axes. Batch elements are never mixed, permuted, dropped or normalised by one another.",
  ["inputs"], "all batch shapes, all batch contents, all output types",
  "Tests use one or two batch shapes with a fixed content; independence quantifies over every pair of batch elements.",
  [S1+"frontend/base_frontend.py", S2+"frontend/", S3+"frontend/", S1+"backend/", S2+"backend/", S3+"backend/"],
  [("flatten leading axes, transform, restore", "scattering() of the frontends; reshape_input/reshape_output of 1D backends")],
  ["shape and contents of the output"])

p("C05", "Metadata lines up with the returned coefficients",
  "For 1D and joint time-frequency scattering, row c of every metadata array and entry c of the metadata key list describe channel c of "
  "the array output and entry c of the list output: same number of entries, same order, and the scale, centre frequency, bandwidth, "
  "order and index of the filters that really produced it. For 2D, the j, theta and n labels of each list entry name the filters that "
  "produced that entry, and the reported output size equals the number of channels.",
  ["configurations"], "all filterbank configurations, orders, averaging modes and formats",
  "Tests compare lengths or a few keys for specific configurations; agreement of two independently generated orderings must hold for every filterbank.",
  [S1+"frontend/base_frontend.py", S1+"core/scattering1d.py", S1+"core/timefrequency_scattering.py", S2+"core/scattering2d.py"],
  [("meta() re-runs the core with a dry backend and sorts by the same key", S1+"frontend/base_frontend.py"),
   ("list entries carry j/n/theta labels", "*/core/*.py")],
  ["meta(), output_size(), list/dict/array outputs"])

p("C06", "Array, list and dict outputs carry the same coefficients",
  "Changing only the output type changes only the container: the array output is the list output's coefficients stacked along the "
  "channel axis in list order, and the dict output holds the same coefficients keyed by their filter indices. No coefficient is added, lost, rescaled, cropped or "
  "duplicated by the choice of container.",
  ["inputs", "configurations"], "all inputs and all parameter settings that allow more than one output type",
  "Tests check one configuration per frontend; the containers are built by separate code paths in each frontend.",
  [S1+"frontend/base_frontend.py", S2+"frontend/", S2+"core/scattering2d.py", S1+"core/timefrequency_scattering.py"],
  [("out_type branches at the end of scattering()", "frontends and 2D core")],
  ["outputs under the different out_type values"])

p("C07", "PyTorch filters are non-trainable buffers, used by every call",
  "On the PyTorch frontends every filter array the transform uses is registered as a module buffer, so it moves with .to()/.cuda(), is "
  "saved in state_dict, and is never a trainable parameter. Every call reads each filter from its own buffer: the n-th registered buffer is loaded back into exactly "
  "the filter slot it was registered from, at every level, order and angle.",
  ["configurations", "histories"], "all filterbank configurations and all sequences of device/dtype moves and calls",
  "Tests run on CPU where stale host arrays and buffers coincide; a slot that is skipped or loaded from the wrong buffer shows only after a move, or for particular level counts.",
  [S1+"frontend/torch_frontend.py", S2+"frontend/torch_frontend.py", S3+"frontend/torch_frontend.py"],
  [("register_filters / load_filters pair", "torch_frontend.py of each dimension")],
  ["state_dict(), buffers(), outputs after module.to(...)"],
  [("tensor0..tensorK buffers", "filters in registration order", "torch frontends")])

p("C08", "Gradients flow from output to input on autodiff frontends",
  "On the PyTorch, TensorFlow and JAX frontends every output coefficient stays connected to the input through differentiable operations of that framework: no "
  "step detaches, converts to another framework, or runs outside gradient tracking. The PyTorch 1D/2D modulus has the gradient of the "
  "complex modulus, with gradient zero (not NaN) where the modulus is zero.",
  ["inputs"], "all inputs (including zeros) and all transforms on the autodiff frontends",
  "Tests check that one backward pass runs for some transforms; connectedness is a statement about every operation on every path.",
  [S1+"backend/torch_backend.py", S2+"backend/torch_backend.py", S3+"backend/torch_backend.py", K+"backend/torch_backend.py", K+"backend/tensorflow_backend.py", S1+"backend/tensorflow_backend.py", S2+"backend/tensorflow_backend.py", S3+"backend/tensorflow_backend.py", K+"backend/jax_backend.py"],
  [("ModulusStable autograd function", K+"backend/torch_backend.py"), ("framework-native primitives", "backends")],
  ["gradient of outputs with respect to inputs"])

p("C09", "Malformed inputs are rejected before any computation",
  "An input with too few axes, the wrong signal shape, the wrong type or non-contiguous memory (where documented), and complex or "
  "real arrays passed to a primitive that requires the other kind, raise the documented exception on every frontend rather than "
  "producing coefficients. The rejection does not fire on well-formed inputs.",
  ["inputs"], "all input shapes, dtypes and types",
  "Tests feed a few bad inputs to a few frontends; the guard must dominate the computation on every path of every frontend.",
  [S1+"frontend/base_frontend.py", S2+"frontend/", S3+"frontend/", K+"backend/", S1+"backend/", S2+"backend/", S3+"backend/"],
  [("input checks at the head of scattering()", "frontends"), ("complex_check/real_check/contiguous_check, input_checks", "backends")],
  ["exceptions raised by calls"])

p("C10", "Illegal configurations are rejected at construction or first use",
  "Out-of-range or inconsistent parameters (bad shape, Q below 1, T larger than the signal, a non-power-of-two stride, negative or non-integer oversampling, "
  "a 2D scale exceeding the image, unknown out_type, format, pre-pad or frontend/backend, array output without averaging) raise an exception naming the problem "
  "before any coefficients are returned. Legal parameters are never rejected.",
  ["configurations"], "all parameter values and combinations",
  "Tests try one bad value per guard; each guard's boundary and its presence on every construction path are universally quantified.",
  [S1+"frontend/base_frontend.py", S1+"utils.py", S2+"frontend/base_frontend.py", S3+"frontend/", K+"frontend/base_frontend.py", K+"frontend/entry.py"],
  [("validation in build(), _check_runtime_args(), parse_T(), properties", "base frontends and utils")],
  ["exceptions raised by constructors and calls"])

p("C11", "The cache directory is resolved by precedence and created safely",
  "The cache directory is the explicit argument if given, else the environment variable if set, else the default under the home "
  "directory, with the requested name appended. It is created on request if missing, including missing parents, never touched otherwise, and two processes asking for it at "
  "the same time both succeed.",
  ["schedules", "configurations"], "all combinations of argument, environment, existing paths, and interleavings of two callers",
  "Tests cover single-process precedence; the race between checking and creating needs a particular interleaving.",
  [K+"caching.py"], [("find_cache_base_dir / get_cache_dir", K+"caching.py")], ["returned path and file system"])

p("C12", "Using one frontend never imports another framework",
  "Importing the library and using one frontend imports only the framework of that frontend (plus NumPy and SciPy): no code path loads PyTorch, TensorFlow, JAX, Keras, "
  "scikit-learn or CUDA bindings unless the user asked for the frontend that needs them.",
  ["configurations", "programs"], "all frontends and every import reachable from them",
  "The test environment has every framework installed, so a stray import passes everywhere the tests run.",
  [K+"__init__.py", K+"frontend/entry.py", K+"numpy.py", K+"torch.py", K+"tensorflow.py", K+"jax.py", K+"keras.py", K+"sklearn.py"],
  [("lazy import in the entry class", K+"frontend/entry.py"), ("per-frontend modules", "kymatio/*.py")],
  ["sys.modules after use; ImportError on minimal installs"])

p("C13", "The entry classes dispatch to the requested frontend",
  "Constructing a scattering object from the top-level package with a frontend name yields an instance of that frontend's class for that transform, "
  "built with exactly the remaining arguments, NumPy being the default and names case-insensitive. The per-framework modules export, under the same public names, those same classes, "
  "and an unknown or unsupported frontend raises an error.",
  ["configurations"], "all transforms, frontend names and argument lists",
  "Tests instantiate a few combinations; the dispatch table must be right for each transform/frontend pair.",
  [K+"frontend/entry.py", K+"__init__.py", S1+"frontend/entry.py", S2+"frontend/entry.py", S3+"frontend/entry.py"],
  [("ScatteringEntry.__init__ class swap", K+"frontend/entry.py"), ("__all__ re-exports", "kymatio/*.py")],
  ["type and attributes of the constructed object"])

p("C14", "Scikit-learn transformers obey the estimator contract",
  "For every scikit-learn transformer, get_params reports one value for each constructor argument, equivalent to the value given at construction (an integer may come back as the "
  "1-tuple, a backend name as the backend), so rebuilding or cloning an estimator from its parameters yields one with the "
  "same transform; fit returns the estimator itself and predict/transform return, for a 2-D matrix of flattened samples, one row per sample holding that sample's flattened "
  "coefficients.",
  ["configurations", "inputs"], "all constructor parameters, all sample matrices",
  "Tests run one pipeline at default parameters; the contract quantifies over every parameter value.",
  [K+"frontend/sklearn_frontend.py", S1+"frontend/sklearn_frontend.py", S2+"frontend/sklearn_frontend.py", S3+"frontend/sklearn_frontend.py", S1+"frontend/base_frontend.py"],
  [("ScatteringTransformerMixin", K+"frontend/sklearn_frontend.py")],
  ["get_params, clone, fit, transform"])

p("C15", "Keras layers rebuild from their config and declare their true shape",
  "A Keras scattering layer recreated from its own configuration computes the same transform as the original, for every constructor parameter. The output shape it declares for an input "
  "shape equals the shape of the output it produces.",
  ["configurations"], "all constructor parameters and input shapes of the Keras layers",
  "Tests round-trip one default configuration; both clauses quantify over all parameters.",
  [K+"frontend/keras_frontend.py", S1+"frontend/keras_frontend.py", S2+"frontend/keras_frontend.py"],
  [("get_config / compute_output_shape", "keras frontends")],
  ["get_config(), from_config(), compute_output_shape()"])

p("C16", "Wavelets have zero mean and filters the documented normalisation",
  "Every band-pass wavelet of the 1D filterbanks (temporal and log-frequency) at full resolution, every 2D wavelet at every resolution and every 3D solid harmonic of degree above zero has zero response at frequency zero, "
  "whatever its centre frequency, bandwidth, angle and the parity of the sizes; hence a constant signal has zero first- and second-order coefficients (3D: at degrees above zero). Low-pass filters have unit gain at frequency zero "
  "(2D: within 4e-4), 1D filters have unit l1 norm in time, and 1D and 2D filters are real in the Fourier domain.",
  ["configurations"], "all sizes, centre frequencies, bandwidths and angles",
  "Tests sample a few filters and compare with a tolerance; the identity is algebraic and must hold for all parameters.",
  [S1+"filter_bank.py", S2+"filter_bank.py"],
  [("Morlet correction kappa", S1+"filter_bank.py morlet_1d"), ("K correction", S2+"filter_bank.py morlet_2d"), ("frequency grids", S3+"filter_bank.py")],
  ["filters at frequency zero"])

p("C17", "Padding and unpadding are exact inverses on the signal's support",
  "A 1D signal of N samples is extended by reflection to the smallest power of two that holds it and three supports of the low-pass filter on each side, capped so that the reflection never needs more than N - 1 "
  "samples; the left side gets the floor of half the added samples, the right side the rest. Unpadding a coefficient at resolution 2^j returns exactly the samples, at multiples of 2^j in the padded signal, that lie on the original support: "
  "ceil((left+N)/2^j) - ceil(left/2^j) of them. With T=0 the order-zero coefficient is the input itself; with T='global' each coefficient has one sample. A 2D image is padded by reflection to (floor(M/2^J)+2)*2^J "
  "per axis, half on each side, and each output has floor(M/2^J) x floor(N/2^J) samples.",
  ["inputs", "configurations"], "all signal lengths, scales, strides and resolutions",
  "Tests check a few lengths; off-by-one errors appear for particular residues of the length modulo the stride.",
  [S1+"utils.py", S1+"frontend/base_frontend.py", S2+"utils.py", S2+"frontend/base_frontend.py", S1+"backend/", S2+"backend/"],
  [("compute_padding, compute_border_indices", S1+"utils.py, "+S2+"utils.py"), ("pad/unpad", "backends")],
  ["padded array, output lengths"])

p("C18", "Every filter is applied at the resolution of the signal it multiplies",
  "Along every scattering path the filter multiplied with a spectrum is the version of that filter sampled at exactly that spectrum's resolution, the total subsampling of a coefficient equals the "
  "requested stride (or the path's own scale when unaveraged), no signal is subsampled beyond the scale j of the filter just applied to it nor by a factor that does not divide its length, and each coefficient is cut at the "
  "sample indices of its own resolution. Every level used by a transform exists in the filterbank. In the joint transform the same holds along log-frequency. Strides are at most the averaging scale.",
  ["configurations"], "all scales, strides, averaging scales, oversampling settings and paths",
  "Tests use critical sampling at a few scales; the bookkeeping must hold for all orderings of wavelet scale, stride and averaging scale.",
  [S1+"core/scattering1d.py", S1+"core/timefrequency_scattering.py", S2+"core/scattering2d.py", S1+"filter_bank.py", S2+"filter_bank.py"],
  [("k1/k2/k_J subsampling arithmetic", "cores"), ("per-level filters", "filter banks")],
  ["shape of coefficients; numerical consistency of strides"])

p("C19", "Filterbanks that violate the subsampling condition are refused",
  "Constructing a 1D scattering transform or a joint time-frequency scattering transform always checks the filterbanks actually built: the centre frequency xi of every first-order wavelet of scale j is below 0.5/2^j, "
  "every pair of a first- and a second-order wavelet with scales j1 < j2 has xi1 > xi2, and every log-frequency wavelet of scale j has |xi| below 0.5/2^j. A filterbank that breaks any of these at any position is refused with an AssertionError, "
  "on every frontend and whatever the other parameters, and one that satisfies them is not refused.",
  ["configurations"], "all filterbanks (own or supplied through the filterbank property) and options, on all frontends",
  "Tests build default filterbanks, which satisfy the condition; a skipped or weakened check stays silent.",
  [K+"frontend/base_frontend.py", S1+"frontend/base_frontend.py"],
  [("_check_filterbanks", K+"frontend/base_frontend.py"), ("create_filters", S1+"frontend/base_frontend.py")],
  ["exception at construction, filters held after construction"])

p("C20", "1D scattering is the documented cascade",
  "For every path the 1D transform returns the average of the signal at order zero, |x*psi_n1|*phi at order one and ||x*psi_n1|*psi_n2|*phi at order two, subsampled at the stride, with phi replaced by the "
  "identity when T=0 and by a global sum over time when T='global', for exactly the second-order pairs with increasing scale and only up to max_order.",
  ["inputs", "configurations"], "all inputs, filterbanks, strides, averaging modes and orders",
  "Tests compare stored outputs at a few settings; the definition covers every path of every filterbank.",
  [S1+"core/scattering1d.py", S1+"frontend/base_frontend.py", S1+"backend/"],
  [("scattering1d generator", S1+"core/scattering1d.py"), ("base scattering()", S1+"frontend/base_frontend.py")],
  ["returned coefficients"])

p("C21", "2D scattering is the documented cascade",
  "For every path the 2D transform returns x*phi, |x*psi|*phi and ||x*psi|*psi'|*phi subsampled by 2^J, for every oriented wavelet and for exactly the second-order pairs with strictly increasing scale, "
  "ordered by order then first then second filter, and only up to max_order.",
  ["inputs", "configurations"], "all inputs, J, L, orders, pre-padding choices and output types",
  "Tests compare stored outputs at a few settings; the definition covers every path.",
  [S2+"core/scattering2d.py", S2+"frontend/", S2+"backend/"],
  [("scattering2d", S2+"core/scattering2d.py")],
  ["returned coefficients"])

p("C22", "3D solid-harmonic scattering is the documented cascade",
  "The 3D transform returns, for each order up to max_order, each scale pair j1<j2, each degree l and each integral power q, the integral (or local or point average, as the method says) of the q-th power of the rotation-covariant (or m=0) "
  "modulus, laid out as batch, path, degree and power.",
  ["inputs", "configurations"], "all inputs, J, L, powers, averaging methods, covariance settings and orders",
  "Tests compare stored outputs at one setting; the definition covers every path and method.",
  [S3+"core/scattering3d.py", S3+"frontend/", S3+"backend/", S3+"utils.py"],
  [("scattering3d", S3+"core/scattering3d.py"), ("averaging", S3+"frontend/*_frontend.py")],
  ["returned coefficients"])

p("C23", "Joint time-frequency scattering is the documented cascade",
  "For every time wavelet and every frequency filter of either spin, the joint transform convolves the first-order (and second-order) scalogram along log-frequency, takes the modulus, and averages in time and/or frequency as T, F and the format ask; "
  "the time-only paths and the order of operations are as documented.",
  ["inputs", "configurations"], "all inputs, filterbanks, T, F, strides and formats",
  "Tests exercise a few settings and mostly check shapes.",
  [S1+"core/timefrequency_scattering.py", S1+"frontend/base_frontend.py"],
  [("joint_timefrequency_scattering, jtfs_average_and_format", S1+"core/timefrequency_scattering.py")],
  ["returned coefficients"])

p("C24", "Filterbanks follow the documented closed forms",
  "The 1D centre frequencies, bandwidths and scales follow the documented constant-Q then constant-bandwidth recursion, and each filter at each resolution is the periodised Gauss/Morlet closed form of its "
  "centre frequency and bandwidth. The 2D filters are the periodised oriented Morlet and Gaussian, and the 3D filters the solid harmonics times Gaussians, for every scale, angle and degree.",
  ["configurations"], "all sizes, J, Q, L, T, sigma_0 and filter indices",
  "Tests compare some filters against tolerances; the closed forms hold for every parameter value.",
  [S1+"filter_bank.py", S2+"filter_bank.py", S3+"filter_bank.py"],
  [("scattering_filter_factory, anden_generator, morlet_1d, gauss_1d", S1+"filter_bank.py"), ("filter_bank", S2+"filter_bank.py"), ("solid_harmonic_filter_bank, gaussian_filter_bank", S3+"filter_bank.py")],
  ["filter arrays and their metadata"])

p("C25", "No reachable code refers to a name or attribute that does not exist",
  "On every path of every public class and function, names, imported symbols, module exports and attributes of the library's own objects resolve; calls to the library's own functions pass an acceptable argument list; no local variable is read where no path can have assigned it; literal message templates receive the values they ask for; and every operation "
  "the cores and frontends ask of a backend exists on each backend they can be given. So no documented operation or error path fails with NameError, UnboundLocalError, AttributeError, ImportError or a call-signature or formatting TypeError.",
  ["programs"], "all code paths, including error handling, deprecated accessors and rarely used options",
  "Python resolves names only on execution; error branches and deprecated attributes are never run by the tests.",
  [K], [("name, import, attribute and signature resolution", "all modules")],
  ["absence of NameError/AttributeError/ImportError/TypeError", "well-formed error messages"])

p("C26", "Concurrent calls and module replicas do not interfere",
  "Two threads calling the same scattering object, or a data-parallel wrapper running replicas of a PyTorch module on several devices, get the results they would get alone. A call writes no state that another call or replica reads.",
  ["schedules"], "all interleavings of calls on one object or on its replicas",
  "Tests are single-threaded and single-device; interference needs a particular interleaving.",
  [S1+"frontend/torch_frontend.py", S2+"frontend/torch_frontend.py", S3+"frontend/torch_frontend.py", S1+"frontend/base_frontend.py"],
  [("load_filters at each call", "torch frontends")],
  ["results under concurrent calls / DataParallel"],
  [("filter tables held by the module and shared by shallow copies", "nested lists/dicts of filters", "torch frontends")])

p("C27", "Coefficients move with the signal; a change is never amplified in 1D",
  "Translating a signal away from the borders (in 3D, translating any volume circularly) by a multiple of the largest stride translates every coefficient by the corresponding number of samples, and leaves coefficients averaged over the whole domain unchanged. "
  "For 1D and time-frequency scattering, no sample of a locally averaged or unaveraged coefficient changes by more than the largest change of a sample of the signal.",
  ["inputs", "configurations"], "all signals, translations, perturbations, configurations and frontends",
  "Tests compare stored outputs of a few signals; covariance and non-expansiveness relate pairs of signals.",
  [S1+"core/scattering1d.py", S1+"core/timefrequency_scattering.py", S1+"filter_bank.py", S2+"core/scattering2d.py", S3+"core/scattering3d.py"],
  [("convolution, modulus and subsampling of each path", "cores"), ("l1 normalisation of the filters", S1+"filter_bank.py")],
  ["values of coefficients of translated or perturbed signals"])

p("C28", "Results are accurate to the precision of the input dtype",
  "Coefficients agree with exact arithmetic to within a small multiple of the input precision, on CPU and GPU alike, for all well-scaled inputs.",
  ["inputs", "configurations"], "all inputs, dtypes and devices",
  "Rounding-error accumulation depends on run-time values and vendor FFTs.",
  [S1+"backend/", S2+"backend/", S3+"backend/"], [("vendor FFT and elementwise kernels", "backends")],
  ["numerical error of outputs"])

p("C29", "Coefficients follow the symmetries of the signal domain",
  "Multiplying a signal by a constant multiplies order zero by it and higher orders by its absolute value (3D integrals of power q by its q-th power). Reversing a 1D signal in time reverses its coefficients, exchanging the two spins of time-frequency paths; mirroring or transposing an image mirrors or transposes its coefficients and permutes their orientations accordingly. "
  "With rotation covariance, 3D coefficients do not change when the axes of a volume are permuted or mirrored (mirrored axes of odd size).",
  ["inputs", "configurations"], "all signals, constants, symmetries, configurations and frontends",
  "Tests check one rotation of one volume on one backend; the symmetries relate pairs of signals and hold for all of them.",
  [S1+"core/", S1+"filter_bank.py", S2+"core/scattering2d.py", S2+"filter_bank.py", S3+"core/scattering3d.py", S3+"filter_bank.py"],
  [("modulus, rotation-covariant modulus, spin of frequential filters, orientations", "cores and filter banks")],
  ["values of coefficients of transformed signals"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
