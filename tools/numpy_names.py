"""Writes ctlcheck/numpy_names.json: the public names of numpy's modules, the attributes of its array and scalar types and
the parameter lists of its functions.  Run once with an interpreter that has numpy (/opt/venv/bin/python); the checks read the file."""
import inspect, json, os
import numpy as np

MODS = ['numpy', 'numpy.linalg', 'numpy.random', 'numpy.fft', 'numpy.testing', 'numpy.ma']
out = {'modules': {}, 'signatures': {}, 'array_attributes': []}
for m in MODS:
    obj = __import__(m, fromlist=['x'])
    names = set(dir(obj)) | set(getattr(obj, '__all__', []))
    out['modules'][m] = sorted(n for n in names)
    for n in sorted(names):
        f = getattr(obj, n, None)
        if not callable(f) or n.startswith('_'):
            continue
        if isinstance(f, np.ufunc):
            continue
        try:
            sig = inspect.signature(f)
        except (TypeError, ValueError):
            continue
        ps = [[p.name, p.kind.name, p.default is not p.empty] for p in sig.parameters.values()]
        out['signatures'][m + '.' + n] = ps
a = set()
for t in (np.ndarray, np.float64, np.int64, np.complex128, np.bool_, np.dtype, np.random.Generator, np.random.RandomState, np.matrix, np.nditer, np.flatiter):
    a |= set(dir(t))
a |= {'eigenvalues', 'eigenvectors', 'U', 'S', 'Vh', 'Q', 'R'}
out['array_attributes'] = sorted(a)
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'ctlcheck', 'numpy_names.json'), 'w'), indent=0)
print(len(out['signatures']), len(a))
