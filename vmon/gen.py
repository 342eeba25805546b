"""Workload generators: hostile data clouds and grids.  Only the public constructors of cis and iris are used."""
import datetime
import zlib
import numpy as np

SHUFFLE = True
STD = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


def std_time_unit():
    from cis.time_util import cis_standard_time_unit
    return cis_standard_time_unit


TUNIT = 'days since 1600-01-01 00:00:00'


def days(dt):
    """Standard time number of a datetime, computed without cis."""
    d = dt - datetime.datetime(1600, 1, 1)
    return d.days + (d.seconds + d.microseconds / 1e6) / 86400.0


def lons(rng, n, conv=None):
    conv = conv or rng.choice(['0_360', '-180_180', 'seam', 'mixed'])
    if conv == '0_360':
        x = rng.uniform(0, 360, n)
    elif conv == '-180_180':
        x = rng.uniform(-180, 180, n)
    elif conv == 'seam':
        x = 180 + rng.uniform(-6, 6, n)
        x = np.where(x > 180, x - 360, x)
    else:
        x = rng.uniform(-180, 360, n)
    return x


def lats(rng, n, conv=None):
    conv = conv or rng.choice(['all', 'pole', 'band', 'equator'])
    if conv == 'all':
        x = rng.uniform(-90, 90, n)
    elif conv == 'pole':
        x = rng.choice([-1, 1]) * (90 - np.abs(rng.uniform(0, 4, n)))
    elif conv == 'band':
        x = rng.uniform(-90, 84) + rng.uniform(0, 6, n)
    else:
        x = rng.uniform(-4, 4, n)
    x = np.clip(x, -90, 90)
    return x


def cloud(rng, n, coarse=None):
    """lat/lon cloud: clustered or global, sometimes snapped to a coarse lattice (duplicates, ties, edges)."""
    la, lo = lats(rng, n), lons(rng, n)
    if rng.random() < 0.25 and n > 3:
        k = rng.integers(0, n, n)
        m = rng.random(n) < 0.4
        la, lo = np.where(m, la[k], la), np.where(m, lo[k], lo)
    snap = rng.random() < 0.3 if coarse is None else coarse
    if snap:
        s = float(rng.choice([0.5, 1., 2.5]))
        la, lo = np.clip(np.round(la / s) * s, -90, 90), np.round(lo / s) * s
    if rng.random() < 0.2 and n > 2:
        la[rng.integers(0, n)] = rng.choice([-90., 90.])
    return la, lo


def meta(**kw):
    from cis.data_io.ungridded_data import Metadata
    return Metadata(**kw)


UNITS = dict(latitude='degrees_north', longitude='degrees_east', altitude='m', air_pressure='hPa')
AXIS = dict(latitude='Y', longitude='X', altitude='Z', air_pressure='P', time='T')


def coord(std, values, units=None, name=None, **kw):
    from cis.data_io.Coord import Coord
    u = units if units is not None else (std_time_unit() if std == 'time' else UNITS.get(std, '1'))
    return Coord(np.ma.asarray(values) if isinstance(values, np.ma.MaskedArray) else np.asarray(values),
                 meta(name=name or std, standard_name=std, units=u, **kw), AXIS.get(std, ''))


def ungridded(coords, values, name='v', units='1', **kw):
    """coords: ordered dict std name -> array (same shape as values).  The coordinates are listed in any order (a
    product may list the longitude first); the order depends on nothing but the numbers, so cases stay reproducible."""
    from cis.data_io.ungridded_data import UngriddedData
    from cis.data_io.Coord import CoordList
    keys = list(coords)
    c = zlib.crc32(b''.join(np.ascontiguousarray(np.ma.filled(np.ma.asarray(v), 0)).tobytes()
                            for v in coords.values() if np.ma.asarray(v).dtype.kind in 'fiu'))
    if SHUFFLE and c % 2:
        keys = [keys[i] for i in np.random.default_rng(c).permutation(len(keys))]
    coords = {k: coords[k] for k in keys}
    cl = CoordList([coord(k, v) for k, v in coords.items()])
    return UngriddedData(values, meta(name=name, long_name=kw.pop('long_name', name + ' long'), units=units, **kw), cl)


def rand_coords(rng, n, which=None, base=None):
    """dict of coordinate arrays for n points."""
    which = which or STD
    out = {}
    la, lo = cloud(rng, n)
    for k in which:
        if k == 'latitude':
            out[k] = la
        elif k == 'longitude':
            out[k] = lo
        elif k == 'altitude':
            out[k] = np.round(rng.uniform(0, 12000, n), 1)
        elif k == 'air_pressure':
            out[k] = np.round(rng.uniform(50, 1020, n), 2)
        elif k == 'time':
            t0 = days(datetime.datetime(2000, 1, 1) + datetime.timedelta(days=int(rng.integers(0, 9000))))
            out[k] = t0 + rng.uniform(0, 4, n)
    return out


def values(rng, n, kind=None, mask=None):
    """float values that make sums exact (integers/4), unique with high probability; optional mask."""
    v = rng.integers(-4000, 4000, n) / 4.0
    kind = kind or rng.choice(['plain', 'masked', 'some', 'most'])
    if kind == 'plain':
        return v
    frac = {'masked': 0.0, 'some': 0.25, 'most': 0.8}[kind]
    return np.ma.masked_array(v, mask=rng.random(n) < frac)


def compatible(a, b, rtol=1e-9, atol=1e-9):
    """masked-aware comparison: same shape, same mask, close unmasked values (nan==nan)."""
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    if a.shape != b.shape:
        return False
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if not np.array_equal(ma, mb):
        return False
    x, y = np.asarray(a.data)[~ma], np.asarray(b.data)[~mb]
    if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
        return bool(np.all(x == y))
    return bool(np.allclose(x.astype(float), y.astype(float), rtol=rtol, atol=atol, equal_nan=True))


def nanmask(a):
    """array with missing (masked or NaN) points masked."""
    a = np.ma.asarray(a)
    m = np.ma.getmaskarray(a).copy()
    if a.dtype.kind == 'f':
        m |= np.isnan(a.filled(0.0))
    return np.ma.masked_array(np.asarray(a.data), mask=m)


# --------------------------------------------------------------------------------------------------------- grids

def axis(rng, kind, n=None, direction=None, bounds=None, conv=None):
    """One dimension axis description: dict(kind, points, bounds)."""
    n = n or int(rng.integers(2, 7))
    if kind == 'latitude':
        if rng.random() < 0.5:
            lo, hi = -90., 90.
        else:
            lo = float(rng.integers(-80, 40))
            hi = lo + float(rng.integers(10, 50))
        edges = np.linspace(lo, hi, n + 1)
    elif kind == 'longitude':
        conv = conv or rng.choice(['glob0', 'glob180', 'reg0', 'reg180'])
        if conv == 'glob0':
            off = float(rng.choice([0., -180. / n]))
            edges = np.linspace(0, 360, n + 1) + off
        elif conv == 'glob180':
            edges = np.linspace(-180, 180, n + 1)
        elif conv == 'reg0':
            lo = float(rng.integers(0, 250))
            edges = np.linspace(lo, lo + float(rng.integers(20, 110)), n + 1)
        else:
            lo = float(rng.integers(-180, 80))
            edges = np.linspace(lo, lo + float(rng.integers(20, 100)), n + 1)
    elif kind == 'altitude':
        edges = np.linspace(0, float(rng.integers(2000, 12000)), n + 1)
    elif kind == 'air_pressure':
        edges = np.linspace(float(rng.integers(50, 200)), 1000., n + 1)
    elif kind == 'time':
        t0 = np.floor(days(datetime.datetime(2001, 1, 1))) + float(rng.integers(0, 3000))
        edges = t0 + np.linspace(0, float(rng.integers(1, 9)), n + 1)
    else:
        raise ValueError(kind)
    if rng.random() < 0.3 and n > 2 and kind != 'longitude':
        w = np.cumsum(rng.uniform(0.4, 1.6, n))
        edges = edges[0] + np.concatenate([[0], w / w[-1]]) * (edges[-1] - edges[0])
    pts = 0.5 * (edges[:-1] + edges[1:])
    b = np.stack([edges[:-1], edges[1:]], axis=1)
    if direction is None:
        direction = -1 if rng.random() < 0.35 else 1
    if direction < 0:
        pts, b = pts[::-1].copy(), b[::-1, ::-1].copy()
    return dict(kind=kind, points=pts, bounds=b, conv=conv, direction=direction)


def dim_coord(ax, bounds=True, circular=None):
    from iris.coords import DimCoord
    k = ax['kind']
    u = std_time_unit() if k == 'time' else {'latitude': 'degrees', 'longitude': 'degrees', 'altitude': 'm',
                                             'air_pressure': 'hPa'}[k]
    c = DimCoord(ax['points'], standard_name=k, units=u, var_name={'latitude': 'lat', 'longitude': 'lon'}.get(k, k),
                 bounds=ax['bounds'] if bounds else None)
    if circular is not None:
        c.circular = circular
    return c


def cube(axes, data, name='g', units='1', bounds=True, aux=(), circular=None, **kw):
    """GriddedData from axis descriptions in dimension order."""
    from cis.data_io.gridded_data import GriddedData
    dims = [(dim_coord(a, bounds, circular if a['kind'] == 'longitude' else None), i) for i, a in enumerate(axes)]
    return GriddedData(data, var_name=name, long_name=kw.pop('long_name', name + ' long'), units=units,
                       dim_coords_and_dims=dims, aux_coords_and_dims=list(aux), **kw)


def as_list(out):
    return list(out) if isinstance(out, list) else [out]
