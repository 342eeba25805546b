"""Fingerprints of data objects: everything a user can see of them, as plain comparable values."""
import numpy as np


def arr(a):
    if a is None:
        return None
    a = np.ma.asarray(a) if isinstance(a, np.ma.MaskedArray) else np.asarray(a)
    m = np.ma.getmaskarray(a)
    d = np.asarray(a.data if isinstance(a, np.ma.MaskedArray) else a)
    if d.dtype.kind == 'O':
        v = repr([x for x, k in zip(d.ravel().tolist(), m.ravel().tolist()) if not k])
    else:
        z = np.where(m, np.zeros((), d.dtype), d)
        v = z.tobytes()
    return (str(d.dtype), d.shape, v, m.tobytes() if m.any() else b'')


def plain(v):
    if isinstance(v, dict):
        return tuple(sorted((str(k), plain(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, np.ndarray):
        return arr(v)
    return repr(v)


def meta(m):
    # the range and the shape are derived from the data whenever these are asked for
    return plain(dict((k, x) for k, x in vars(m).items() if k not in ('range', 'shape')))


def lazy(c):
    """LazyData: coordinate or variable"""
    out = {'data': arr(c.data), 'metadata': meta(c.metadata)}
    if hasattr(c, 'axis'):
        out['axis'] = repr(c.axis)
    return out


def cube_coord(c):
    out = {'points': arr(c.points), 'bounds': arr(c.bounds), 'names': repr((c.standard_name, c.long_name, c.var_name)), 'units': repr((str(c.units), c.units.calendar)),
           'attributes': plain(dict(c.attributes)), 'class': type(c).__name__}
    if hasattr(c, 'circular'):
        out['circular'] = repr(c.circular)
    return out


def snap(x, history=True):
    """nested dict of comparable values describing a data object (or list of them)"""
    if isinstance(x, list):
        return {'list': type(x).__name__, 'n': len(x), 'items': [snap(i, history) for i in x]}
    if hasattr(x, 'dim_coords'):
        out = {'class': type(x).__name__, 'data': arr(x.data), 'names': repr((x.standard_name, x.long_name, x.var_name)), 'units': str(x.units),
               'cell_methods': repr(x.cell_methods),
               'attributes': plain({k: v for k, v in x.attributes.items() if history or k != 'history'}),
               'coords': [(i, cube_coord(c), repr(x.coord_dims(c))) for i, c in enumerate(x.coords(dim_coords=True) + list(x.aux_coords) + list(x.derived_coords))]}
        for k in ('filenames', 'alias', 'local_attributes'):
            if hasattr(x, k):
                out[k] = plain(list(getattr(x, k)) if k == 'local_attributes' else getattr(x, k))
        return out
    if hasattr(x, 'metadata'):
        if hasattr(x, '_coords'):
            x.coords()
        out = lazy(x)
        out['class'] = type(x).__name__
        out['attributes'] = plain(x.attributes)
        if hasattr(x, '_coords'):
            out['coords'] = [lazy(c) for c in x.coords()]
            out['data'] = arr(x.data)
            out['filenames'] = plain(x.filenames)
            out['alias'] = repr(x.alias)
            out['flattened'] = arr(x.data_flattened)
        return out
    if hasattr(x, 'coords') and hasattr(x, 'as_data_frame') or type(x).__name__ == 'UngriddedCoordinates':
        return {'class': type(x).__name__, 'coords': [lazy(c) for c in x.coords()]}
    return {'value': plain(x)}


def diff(a, b, path=''):
    """first difference, as text, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s only on one side' % (path, k)
            d = diff(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d and %d elements' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and isinstance(a[0], int):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s(%d)' % (path, i))
            if d:
                return d
        return None
    if a != b:
        return '%s: %s -> %s' % (path, short(a), short(b))
    return None


def short(v):
    if isinstance(v, tuple) and len(v) == 4 and isinstance(v[2], bytes):
        try:
            return '%s %s %s' % (v[0], v[1], np.frombuffer(v[2], v[0])[:8])
        except Exception:
            pass
    return repr(v)[:160]
