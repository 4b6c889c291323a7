"""Documented default values: calls of the checks leave them out.

The checks pass most options by name, also if the value is the documented default. In half of the cases (by the
content of the case, so that a replay does the same) the wrappers below leave out every option that has its
documented default value: the call must mean the same.

Returned arrays belong to the caller: those of every case are overwritten before the next case, so that a function which
keeps (and returns again) an array that it has given away is seen.
"""
import functools, inspect, json, types, zlib
import numpy as np

# function: parameters, documented defaults
DOC = {
    'core.cross_correlate_fft': ('f1 f2 t1 t2 axis n complex aout', {'t1': None, 't2': None, 'axis': 0, 'n': None, 'complex': False, 'aout': None}),
    'core.auto_correlate_fft': ('f t axis n complex aout', {'t': None, 'axis': 0, 'n': None, 'complex': False, 'aout': None}),
    'core.thread_frame_shape': ('shape thread_divisor force_2d', {'thread_divisor': None, 'force_2d': False}),
    'core.reshape_input': ('f axis thread_divisor mask', {'axis': 0, 'thread_divisor': None, 'mask': None}),
    'core.reshape_frame': ('frame shape mask', {'mask': None}),
    'core.reshape_output': ('data shape mask', {'shape': None, 'mask': None}),
    'core.cross_correlate': ('f1 f2 t1 t2 axis n align complex aout', {'t1': None, 't2': None, 'axis': 0, 'n': None, 'align': False, 'complex': False, 'aout': None}),
    'core.cross_difference': ('f1 f2 t1 t2 axis n align aout', {'t1': None, 't2': None, 'axis': 0, 'n': None, 'align': False, 'aout': None}),
    'core.auto_correlate': ('f t axis n align complex aout', {'t': None, 'axis': 0, 'n': None, 'align': False, 'complex': False, 'aout': None}),
    'core.auto_difference': ('f t axis n align aout', {'t': None, 'axis': 0, 'n': None, 'align': False, 'aout': None}),
    'core.cross_count': ('t1 t2 n complex aout', {'t2': None, 'n': None, 'complex': False, 'aout': None}),
    'core.auto_count': ('t n aout', {'n': None, 'aout': None}),
    'core.cross_sum': ('f t t_other axis n align complex time_inversion aout', {'t': None, 't_other': None, 'axis': 0, 'n': None, 'align': False, 'complex': False, 'time_inversion': False, 'aout': None}),
    'core.cross_sum_fft': ('f t t_other axis n complex time_inversion aout', {'t_other': None, 'axis': 0, 'n': None, 'complex': False, 'time_inversion': False, 'aout': None}),
    'core.auto_sum': ('f t axis n align aout', {'t': None, 'axis': 0, 'n': None, 'align': False, 'aout': None}),
    'core.auto_sum_fft': ('f t axis n aout', {'axis': 0, 'n': None, 'aout': None}),
    'core.subtract_background': ('data axis bg return_bg out', {'axis': 0, 'bg': None, 'return_bg': False, 'out': None}),
    'core.stats': ('f1 f2 axis', {'f2': None, 'axis': 0}),
    'core.acorr': ('f t fs n norm method align axis complex aout', {'t': None, 'fs': None, 'n': None, 'norm': None, 'method': None, 'align': False, 'axis': 0, 'complex': False, 'aout': None}),
    'core.ccorr': ('f1 f2 t1 t2 n norm method align axis complex f1s f2s aout', {'t1': None, 't2': None, 'n': None, 'norm': None, 'method': None, 'align': False, 'axis': 0, 'complex': False, 'f1s': None, 'f2s': None, 'aout': None}),
    'core.iccorr': ('data t1 t2 n norm method count chunk_size thread_divisor auto_background viewer viewer_interval mode mask stats complex', {'t1': None, 't2': None, 'n': None, 'norm': None, 'method': 'corr', 'count': None, 'chunk_size': None, 'thread_divisor': None, 'auto_background': False, 'viewer': None, 'viewer_interval': 1, 'mode': 'full', 'mask': None, 'stats': True, 'complex': False}),
    'core.iacorr': ('data t n norm method count chunk_size thread_divisor auto_background viewer viewer_interval mode mask stats complex', {'t': None, 'n': None, 'norm': None, 'method': 'corr', 'count': None, 'chunk_size': None, 'thread_divisor': None, 'auto_background': False, 'viewer': None, 'viewer_interval': 1, 'mode': 'full', 'mask': None, 'stats': True, 'complex': False}),
    'multitau.mean_data_parallel': ('data axis out_axis', {'axis': 0, 'out_axis': None}),
    'multitau.mean_data_cpu': ('data axis out_axis', {'axis': 0, 'out_axis': None}),
    'multitau.choose_data': ('data axis out_axis r', {'axis': 0, 'out_axis': None, 'r': None}),
    'multitau.slice_data': ('data axis out_axis', {'axis': 0, 'out_axis': None}),
    'multitau.ccorr_multi': ('f1 f2 t1 t2 level_size norm method align axis period binning nlevel thread_divisor mask complex', {'t1': None, 't2': None, 'level_size': 16, 'norm': None, 'method': None, 'align': False, 'axis': 0, 'period': 1, 'binning': None, 'nlevel': None, 'thread_divisor': None, 'mask': None, 'complex': False}),
    'multitau.acorr_multi': ('f t level_size norm method align axis period binning nlevel thread_divisor mask complex', {'t': None, 'level_size': 16, 'norm': None, 'method': None, 'align': False, 'axis': 0, 'period': 1, 'binning': None, 'nlevel': None, 'thread_divisor': None, 'mask': None, 'complex': False}),
    'multitau.iccorr_multi': ('data t1 t2 level_size norm method count period binning nlevel chunk_size thread_divisor auto_background viewer viewer_interval mode mask stats complex', {'t1': None, 't2': None, 'level_size': 16, 'norm': None, 'method': 'corr', 'count': None, 'period': 1, 'binning': None, 'nlevel': None, 'chunk_size': None, 'thread_divisor': None, 'auto_background': False, 'viewer': None, 'viewer_interval': 1, 'mode': 'full', 'mask': None, 'stats': True, 'complex': False}),
    'multitau.iacorr_multi': ('data t level_size norm method count period binning nlevel chunk_size thread_divisor auto_background viewer viewer_interval mode mask stats complex', {'t': None, 'level_size': 16, 'norm': None, 'method': 'corr', 'count': None, 'period': 1, 'binning': None, 'nlevel': None, 'chunk_size': None, 'thread_divisor': None, 'auto_background': False, 'viewer': None, 'viewer_interval': 1, 'mode': 'full', 'mask': None, 'stats': True, 'complex': False}),
    'multitau.multilevel_count': ('count level_size binning', {'binning': 1}),
    'multitau.ccorr_multi_count': ('count period level_size binning', {'period': 1, 'level_size': 16, 'binning': True}),
    'multitau.acorr_multi_count': ('count period level_size binning', {'period': 1, 'level_size': 16, 'binning': True}),
    'multitau.multilevel': ('data level_size binning fold', {'level_size': 16, 'binning': 1, 'fold': None}),
    'multitau.merge_multilevel': ('data mode', {'mode': 'full'}),
    'multitau.log_average': ('data size fold', {'size': 8, 'fold': None}),
    'multitau.log_average_count': ('count size', {'size': 8}),
    'multitau.log_merge': ('lin multi binning fold', {'binning': 1, 'fold': None}),
    'multitau.log_merge_count': ('lin_count multi_count binning', {'binning': 1}),
    'multitau.t_multilevel': ('shape period', {'period': 1}),
    'multitau.normalize_multi': ('data background variance norm mode scale mask', {'background': None, 'variance': None, 'norm': None, 'mode': 'corr', 'scale': False, 'mask': None}),
    'norm.norm_flags': ('structured subtracted weighted compensated', {'structured': False, 'subtracted': False, 'weighted': False, 'compensated': False}),
    'norm.scale_factor': ('variance mask', {'mask': None}),
    'norm.noise_mean': ('corr scale_factor mode', {'scale_factor': 1.0, 'mode': 'corr'}),
    'norm.noise_delta': ('variance mask scale', {'mask': None, 'scale': True}),
    'norm.weight_from_data': ('corr delta scale_factor mode pre_filter', {'delta': 0.0, 'scale_factor': 1.0, 'mode': 'corr', 'pre_filter': True}),
    'norm.weight_prime_from_data': ('corr bg1 bg2 delta scale_factor mode pre_filter', {'delta': 0.0, 'scale_factor': 1.0, 'mode': 'corr', 'pre_filter': True}),
    'norm.normalize': ('data background variance norm mode scale mask weight ret_weight out', {'background': None, 'variance': None, 'norm': None, 'mode': 'corr', 'scale': False, 'mask': None, 'weight': None, 'ret_weight': False, 'out': None}),
    'norm.fold_data': ('data mode', {'mode': 0}),
    'map.sector_indexmap': ('kmap anglemap angle sector kstep', {'angle': 0.0, 'sector': 30.0, 'kstep': 1.0}),
    'map.fft2_sector_indexmap': ('kmap anglemap angle sector kstep', {'angle': 0.0, 'sector': 30.0, 'kstep': 1.0}),
    'map.rfft2_kangle': ('kisize kjsize shape', {'kisize': None, 'kjsize': None, 'shape': None}),
    'map.fft2_kangle': ('kisize kjsize shape', {'kisize': None, 'kjsize': None, 'shape': None}),
    'map.rfft2_grid': ('kisize kjsize shape', {'kisize': None, 'kjsize': None, 'shape': None}),
    'map.fft2_grid': ('kisize kjsize shape', {'kisize': None, 'kjsize': None, 'shape': None}),
    'map.k_indexmap': ('kisize kjsize angle sector kstep shape', {'angle': 0, 'sector': 5, 'kstep': 1.0, 'shape': None}),
    'map.as_fft2_shape': ('kisize kjsize shape', {'kisize': None, 'kjsize': None, 'shape': None}),
    'map.as_rfft2_mask': ('a axes', {'axes': (-2, -1)}),
    'map.as_rfft2_conj': ('a axes', {'axes': (-2, -1)}),
    'map.as_rfft2_data': ('a axes', {'axes': (-2, -1)}),
    'map.from_rfft2_data': ('a shape axes', {'shape': None, 'axes': (-2, -1)}),
    'map.fft2_k_indexmap': ('kisize kjsize angle sector kstep shape mode', {'angle': 0, 'sector': 5, 'kstep': 1.0, 'shape': None, 'mode': 'rfft2'}),
    'map.plot_indexmap': ('graph mode', {'mode': 'rfft2'}),
    'map.k_select': ('data angle sector kstep k shape mask mode', {'sector': 5, 'kstep': 1, 'k': None, 'shape': None, 'mask': None, 'mode': 'rfft2'}),
    'avg.denoise': ('x n', {'n': 3}),
    'window.blackman': ('shape out', {'out': None}),
    'window.gaussian': ('shape sigma out', {'out': None}),
    'window.tukey': ('shape alpha out', {'out': None}),
    'window.hann': ('shape out', {'out': None}),
    'window.plot_windows': ('shape alpha sigma', {'shape': (256, 256), 'alpha': 0.5, 'sigma': 0.4}),
    'video.asarrays': ('video count', {'count': None}),
    'video.asmemmaps': ('basename video count', {'count': None}),
    'video.load': ('video count', {'count': None}),
    'video.crop': ('video roi', {}),
    'video.mask': ('video mask', {'mask': None}),
    'video.subtract': ('x y inplace dtype', {'inplace': False, 'dtype': None}),
    'video.add': ('x y inplace dtype', {'inplace': False, 'dtype': None}),
    'video.normalize_video': ('video inplace dtype', {'inplace': False, 'dtype': None}),
    'video.multiply': ('x y inplace dtype', {'inplace': False, 'dtype': None}),
    'video.pause': ('i', {'i': 1}),
    'video.play': ('video fps max_delay', {'fps': 100.0, 'max_delay': 0.1}),
    'video.play_threaded': ('video fps', {'fps': None}),
    'video.threaded': ('video queue_size', {'queue_size': 0}),
    'video.norm_rfft2': ('clip mode', {'clip': None, 'mode': 'real'}),
    'video.show_fft': ('video id title clip mode', {'id': 0, 'title': None, 'clip': None, 'mode': 'abs'}),
    'video.show_video': ('video id title norm_func', {'id': 0, 'title': None}),
    'video.show_diff': ('video title normalize dt t1 t2', {'title': None, 'normalize': False, 'dt': None, 't1': None, 't2': None}),
    'video.random_video': ('shape count dtype max_value dual', {'shape': (512, 512), 'count': 256, 'max_value': 1.0, 'dual': False}),
    'sim.form_factor': ('window sigma intensity navg dtype mode', {'sigma': 3, 'intensity': 5, 'navg': 10, 'dtype': 'uint8', 'mode': 'rfft2'}),
    'sim.brownian_walk': ('x0 count shape delta dt velocity', {'count': 1024, 'shape': (256, 256), 'delta': 1, 'dt': 1, 'velocity': (0.0, 0.0)}),
    'sim.brownian_particles': ('count shape num_particles delta dt velocity x0', {'count': 500, 'shape': (256, 256), 'num_particles': 100, 'delta': 1, 'dt': 1, 'velocity': 0.0, 'x0': None}),
    'sim.particles_video': ('particles t1 shape t2 background intensity sigma dtype offset rotation', {'shape': (256, 256), 't2': None, 'background': 0, 'intensity': 10, 'sigma': None, 'dtype': 'uint8', 'offset': None, 'rotation': None}),
    'sim.plot_random_walk': ('count num_particles shape', {'count': 5000, 'num_particles': 2, 'shape': (256, 256)}),
    'sim.create_random_time': ('nframes n dt_min', {'n': 32, 'dt_min': 1}),
    'sim.random_time_count': ('nframes n', {'n': 32}),
    'sim.create_random_times1': ('nframes n', {'n': 32}),
    'sim.create_random_times2': ('nframes n', {'n': 32}),
    'sim.simple_brownian_video': ('t1 t2 shape background intensity sigma dtype offset rotation', {'t2': None, 'shape': (256, 256), 'background': 0, 'intensity': 5, 'sigma': 3, 'dtype': 'uint8', 'offset': None, 'rotation': None}),
    'sim.adc': ('frame saturation black_level bit_depth readout_noise noise_model out', {'saturation': 32768, 'black_level': 0, 'bit_depth': '14bit', 'readout_noise': 0.0, 'noise_model': 'gaussian', 'out': None}),
    'sim.coordinate_transform': ('data shape offset rotation', {'offset': None, 'rotation': None}),
    'fft.rfft2_crop': ('x kimax kjmax', {'kimax': None, 'kjmax': None}),
    'fft.fft2_crop': ('x kimax kjmax', {'kimax': None, 'kjmax': None}),
    'fft.rfft2_video': ('video kimax kjmax overwrite_x extra', {'kimax': None, 'kjmax': None, 'overwrite_x': False, 'extra': {}}),
    'fft.fft2_video': ('video kimax kjmax overwrite_x extra', {'kimax': None, 'kjmax': None, 'overwrite_x': False, 'extra': {}}),
    'fft.dls': ('frame window kvec kimax kjmax', {'kimax': None, 'kjmax': None}),
    'fft.dls_video': ('video window kvec kimax kjmax', {'kimax': None, 'kjmax': None}),
    'fft.normalize_fft': ('video inplace dtype', {'inplace': False, 'dtype': None}),
    # classes and methods
    'viewer.VideoViewer': ('video count id norm_func title', {'count': None, 'id': 0, 'title': ""}),
    'viewer.DataArrayViewer': ('semilogx axes', {'semilogx': True, 'axes': ()}),
    'viewer.CorrArrayViewer': ('semilogx axes size norm scale fold', {'semilogx': True, 'axes': (0,), 'size': None, 'norm': None, 'scale': False, 'fold': None}),
    'viewer.MultitauArrayViewer': ('semilogx axes size norm scale fold', {'semilogx': True, 'axes': (0,), 'size': None, 'norm': None, 'scale': False, 'fold': None}),
    'viewer.DataViewer': ('semilogx shape mask', {'semilogx': True, 'shape': None, 'mask': None}),
    'viewer.CorrViewer': ('semilogx shape size norm scale mask fold', {'semilogx': True, 'shape': None, 'size': None, 'norm': None, 'scale': False, 'mask': None, 'fold': None}),
    'viewer.MultitauViewer': ('semilogx shape norm scale mask fold', {'semilogx': True, 'shape': None, 'norm': None, 'scale': False, 'mask': None, 'fold': None}),
    'viewer.set_mask': ('k angle sector kstep', {'angle': 0, 'sector': 5, 'kstep': 1}),
}

CACHED = type(functools.lru_cache(len))
state = {"drop": False}
given = []  # arrays returned in this case


def arrays(x, found, depth=0):
    if isinstance(x, np.ndarray):
        found.append(x)
    elif isinstance(x, (tuple, list)) and depth < 4:
        for v in x[:50]:
            arrays(v, found, depth + 1)
    return found


def returned(out, args, kw):
    """Keeps the arrays that the function has made (not those of the caller)."""
    new = arrays(out, [])
    if new and len(given) < 500:
        own = arrays(list(args) + list(kw.values()), [])
        given.extend(a for a in new if not any(np.may_share_memory(a, b) for b in own))


def overwrite():
    while given:
        a = given.pop()
        if a.flags.writeable and a.dtype.kind in "biufc" and not isinstance(a, np.memmap):
            try:
                a[...] = 77
            except ValueError:
                pass


def new_case(case):
    overwrite()
    state["drop"] = bool(zlib.crc32(json.dumps(case, sort_keys=True).encode()) & 1)


def same(v, d):
    if d is None or isinstance(d, (bool, str)):
        return v is d or (isinstance(d, str) and isinstance(v, str) and v == d)
    if isinstance(d, (int, float)):
        return type(v) in (int, float) and v == d
    return type(v) is type(d) and v == d


def wrapped(f, name):
    names, doc = DOC.get(name, ("", {}))
    names = names.split()

    @functools.wraps(f, updated=())
    def call(*args, **kw):
        all_args = args, kw
        if state["drop"] and names:
            kw = {k: v for k, v in kw.items() if not (k in doc and same(v, doc[k]))}
            args = list(args)
            while args and len(args) <= len(names) and names[len(args) - 1] in doc and same(args[-1], doc[names[len(args) - 1]]):
                args.pop()
        out = f(*args, **kw)
        returned(out, *all_args)
        return out
    return call


class Proxy:
    """A module of the package, the functions of which are wrapped. Attributes are set in the module itself."""

    def __init__(self, module):
        object.__setattr__(self, "_module", module)

    def __getattr__(self, name):
        v = getattr(self._module, name)
        return wrap_one(v, v)

    def __setattr__(self, name, value):
        setattr(self._module, name, value)

    def __delattr__(self, name):
        delattr(self._module, name)


def wrap_one(v, other):
    if isinstance(v, (types.FunctionType, CACHED, type)) and v.__module__.startswith("cddm."):
        name = v.__module__[5:] + "." + v.__name__
        if name in DOC or isinstance(v, (types.FunctionType, CACHED)) and not inspect.isgeneratorfunction(v):
            return wrapped(v, name)
    return other


def wrap(names):
    """Replaces the functions and modules of the package in the namespace of a check."""
    for k, v in list(names.items()):
        if isinstance(v, types.ModuleType) and v.__name__.startswith("cddm."):
            names[k] = Proxy(v)
        else:
            names[k] = wrap_one(v, v)
