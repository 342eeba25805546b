"""C11: re-expressing longitudes; every value, mask, bound and auxiliary coordinate must stay with its own meridian."""
import numpy as np
from vmon import gen

CASES = {'quick': 1920, 'thorough': 8000}
RULE = ('one observation per distinct (object kind, dimension order, direction, grid convention, range start, bounds, mask, '
        'auxiliary coordinates, ranges applied) whose every point or cell was compared')
REQUIRED = {'gridded': 150, 'ungridded': 100, 'points_moved': 3000, 'rotated': 60, 'aux_coords': 100, 'idempotence': 300,
            'views': 100}
ASSUMPTIONS = ['grids spanning a full 360 degrees with both ends present are not re-expressed',
               'longitudes are multiples of 1/1024 degree, so that adding 360 is exact']


def in_range(x, s):
    return bool(np.all((x >= s) & (x < s + 360)))


def congruent(a, b):
    d = (np.asarray(a, float) - np.asarray(b, float)) / 360.
    return bool(np.all(np.abs(d - np.round(d)) < 1e-6))


def same(a, b):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(ma, mb) and np.array_equal(a.data[~ma], b.data[~mb])


STARTS = [0., -180., -180., 0., 90., -90., 180., 20., -360., 360., -17.5]


def case(t):
    (gridded if t.rng.random() < 0.55 else ungridded)(t, t.rng)


def ungridded(t, r):
    from cis.data_io.Coord import Coord
    from cis.data_io.ungridded_data import UngriddedDataList, UngriddedCoordinates
    n = int(r.choice([1, 2, 6, 40]))
    shape = (n,) if n % 2 or r.random() < 0.6 else (2, n // 2)
    conv = str(r.choice(['0', '180', 'mixed', 'edges']))
    lon = np.round(r.uniform(0, 360, n) * 1024) / 1024
    if conv == '180':
        lon -= 180
    elif conv == 'mixed':
        lon += 360. * r.integers(-2, 3, n)
    elif conv == 'edges':
        lon = r.choice([-360., -180., 0., 180., 359.5, 360., 540., -0.25], n)
    dt = str(r.choice(['f8', 'f8', 'f4']))
    lon = lon.astype(dt)
    c = gen.rand_coords(r, n, ['latitude', 'longitude'])
    c['longitude'] = lon
    if r.random() < 0.5:
        c['altitude'] = r.uniform(0, 9000, n)
    c = {k: np.asarray(v).reshape(shape) for k, v in c.items()}
    kind = str(r.choice(['data', 'data', 'list', 'coords', 'coord']))
    vals = [gen.values(r, n).reshape(shape) for _ in range(2 if kind == 'list' else 1)]
    starts = [float(s) for s in r.choice(STARTS, int(r.integers(1, 4)))]
    t.describe('ungridded %s n=%d %s %s %s starts=%s' % (kind, n, shape, conv, dt, starts))
    t.mark('ungridded')
    cc = {k: v.copy() for k, v in c.items()}
    share = r.random() < 0.5
    if kind == 'coord':
        o = gen.coord('longitude', cc['longitude'])
        get = lambda: [o]
    elif kind == 'coords':
        o = UngriddedCoordinates([gen.coord(k, v) for k, v in cc.items()])
        get = lambda: [o.coord(standard_name='longitude')]
    else:
        objs = [gen.ungridded(cc if share else {k: v.copy() for k, v in cc.items()}, v.copy(), 'v%d' % i) for i, v in enumerate(vals)]
        o = objs[0] if kind == 'data' else UngriddedDataList(objs)
        get = lambda: [x.coord(standard_name='longitude') for x in objs]
    if r.random() < 0.6:
        [x.data_flattened for x in get()]        # views taken earlier must not be served again
        t.mark('views')
    for s in starts:
        o.set_longitude_range(s)
        for x in get():
            p = np.asarray(x.data)
            t.check(p.shape == shape and in_range(p, s), 'outside-range', lambda: '%s: %s' % (t.desc, p.ravel()[:5]))
            t.check(congruent(p, c['longitude']), 'longitude-changed', lambda: t.desc)
            t.check(np.array_equal(x.data_flattened, p.ravel()), 'stale-view', t.desc)
            t.mark('points_moved', int((p != c['longitude']).sum()))
        before = [np.array(x.data) for x in get()]
        o.set_longitude_range(s)
        t.mark('idempotence')
        t.check(all(np.array_equal(a, x.data) for a, x in zip(before, get())), 'not-idempotent', t.desc)
    if kind in ('data', 'list'):
        for v, x in zip(vals, objs):
            t.check(same(x.data, v), 'values-changed', t.desc)
            for k in c:
                if k != 'longitude':
                    t.check(np.array_equal(x.coord(standard_name=k).data, c[k]), 'coordinate-changed', k + t.desc)
            h = x.get_all_points()
            t.check(np.array_equal(h.longitude, x.coord(standard_name='longitude').data.ravel()) and
                    np.array_equal(h.latitude, c['latitude'].ravel()), 'view-differs', t.desc)
    t.seen('u', kind, shape, conv, dt, tuple(starts), share)


def gridded(t, r):
    from cis.data_io.gridded_data import GriddedData, GriddedDataList
    from iris.coords import AuxCoord, DimCoord
    kinds = [str(k) for k in r.permutation(['latitude', 'altitude', 'time'])][:int(r.integers(0, 3))] + ['longitude']
    kinds = [str(k) for k in r.permutation(kinds)]
    axes = [gen.axis(r, k) for k in kinds]
    la = next(a for a in axes if a['kind'] == 'longitude')
    style = str(r.choice(['asis', 'asis', 'straddle', 'far', 'single', 'scalar', 'aux2d'], p=[.25, .2, .2, .15, .05, .075, .075]))
    n = len(la['points'])
    off = 0.
    if style == 'straddle':
        off = float(r.choice([-20., 170., 350., 355.5])) - la['points'].min()
    elif style == 'far':
        off = 360. * float(r.choice([-2, -1, 1, 2]))
    la['points'] = np.round((la['points'] + off) * 1024) / 1024
    la['bounds'] = np.round((la['bounds'] + off) * 1024) / 1024
    if style == 'single':
        la['points'], la['bounds'] = la['points'][:1], la['bounds'][:1]
    bounds = r.random() < 0.6
    ddt = str(r.choice(['f8', 'f8', 'f4', 'i4']))
    nvar = int(r.choice([1, 1, 2]))
    starts = [float(s) for s in r.choice(STARTS, int(r.integers(1, 4)))]
    dims = kinds
    if style in ('scalar', 'aux2d'):
        axes = [a for a in axes if a['kind'] != 'longitude']
        if style == 'aux2d' or not axes:
            axes = [gen.axis(r, 'altitude'), gen.axis(r, 'time')]
        dims = [a['kind'] for a in axes]
    shape = tuple(len(a['points']) for a in axes)
    ld = dims.index('longitude') if 'longitude' in dims else None
    vals = [gen.values(r, int(np.prod(shape))).reshape(shape).astype(ddt) for _ in range(nvar)]
    aux = []
    if ld is not None and r.random() < 0.6:
        p = r.uniform(0, 100, len(la['points']))
        aux.append(('station', p, np.stack([p - 1, p + 2], 1) if r.random() < 0.5 else None, (ld,)))
    if ld is not None and len(dims) > 1 and r.random() < 0.5:
        o = int(r.choice([d for d in range(len(dims)) if d != ld]))
        dd = tuple(sorted((o, ld)))
        p = r.uniform(0, 100, (shape[dd[0]], shape[dd[1]]))
        aux.append(('terrain', p, np.stack([p, p + 1], -1) if r.random() < 0.5 else None, dd))
    if ld is not None and len(dims) > 1 and r.random() < 0.3:
        o = int(r.choice([d for d in range(len(dims)) if d != ld]))
        aux.append(('other', r.uniform(0, 1, shape[o]), None, (o,)))
    lon2 = None
    if style == 'aux2d':
        lon2 = np.round(r.uniform(-360, 720, shape) * 1024) / 1024
    if style == 'scalar':
        lon2 = np.round(r.uniform(-360, 720, 1) * 1024) / 1024

    def build(v):
        dd = [(gen.dim_coord(a, bounds=bounds, circular=(a['conv'] in ('glob0', 'glob180') and style != 'single') if a['kind'] == 'longitude' else None), i)
              for i, a in enumerate(axes)]
        ac = [(AuxCoord(p.copy(), long_name=nm, units='1', bounds=None if b is None else b.copy()), d) for nm, p, b, d in aux]
        if lon2 is not None:
            cls = AuxCoord if style == 'aux2d' or bounds else DimCoord
            ac.append((cls(lon2.copy(), standard_name='longitude', units='degrees'), tuple(range(len(shape))) if style == 'aux2d' else None))
        return GriddedData(vals[v].copy(), var_name='g%d' % v, units='1', dim_coords_and_dims=dd, aux_coords_and_dims=ac)
    objs = [build(v) for v in range(nvar)]
    o = objs[0] if nvar == 1 else GriddedDataList(objs)
    old = np.array(la['points'] if lon2 is None else lon2)
    t.describe('gridded %s %s %s lon=%s..%s dir=%s bounds=%s aux=%s starts=%s' % (
        style, dims, shape, old.min(), old.max(), la['direction'], bounds, [(a[0], a[3], a[2] is not None) for a in aux], starts))
    t.mark('gridded')
    for s in starts:
        o.set_longitude_range(s)
        for v, x in enumerate(objs):
            c = x.coord(standard_name='longitude')
            p = np.array(c.points)
            t.check(in_range(p, s), 'outside-range', lambda: '%s: %s' % (t.desc, p))
            t.mark('points_moved', p.size)
            if ld is None:
                t.check(p.shape == old.shape and congruent(p, old), 'longitude-changed', t.desc)
                t.check(same(x.data, vals[v]), 'values-changed', t.desc)
                continue
            if not t.check(p.shape == old.shape, 'longitude-count', t.desc):
                return
            d = np.diff(p) * (1 if la['direction'] > 0 else -1)
            t.check(len(p) == 1 or bool((d > 0).all()), 'not-monotonic', lambda: '%s %s' % (t.desc, p))
            q = (p[:, None] - old[None, :]) / 360.
            hit = np.abs(q - np.round(q)) < 1e-9
            if not t.check(bool((hit.sum(axis=1) == 1).all() and (hit.sum(axis=0) == 1).all()), 'longitude-changed', lambda: '%s %s' % (t.desc, p)):
                return
            src = hit.argmax(axis=1)
            if not np.array_equal(src, np.arange(len(p))):
                t.mark('rotated')
            t.check(same(x.data, np.ma.take(np.ma.asarray(vals[v]), src, axis=ld) if np.ma.isMaskedArray(vals[v]) else np.take(vals[v], src, axis=ld)),
                    'value-left-its-longitude', t.desc)
            if bounds:
                t.check(c.has_bounds() and np.allclose(c.bounds - p[:, None], la['bounds'][src] - old[src][:, None], atol=1e-9),
                        'bounds-left-their-longitude', lambda: '%s %s' % (t.desc, c.bounds))
            for nm, ap, ab, dd in aux:
                a = x.coord(nm)
                t.mark('aux_coords')
                idx = [slice(None)] * ap.ndim
                if ld in dd:
                    idx[dd.index(ld)] = src
                t.check(x.coord_dims(a) == dd and np.array_equal(a.points, ap[tuple(idx)]), 'aux-left-its-longitude', lambda: nm + ' ' + t.desc)
                t.check((ab is None) == (not a.has_bounds()) and (ab is None or np.array_equal(a.bounds, ab[tuple(idx)])),
                        'aux-bounds-left-their-longitude', lambda: nm + ' ' + t.desc)
            for a in axes:
                if a['kind'] != 'longitude':
                    t.check(np.array_equal(x.coord(standard_name=a['kind']).points, a['points']), 'coordinate-changed', t.desc)
        before = [(np.array(x.coord(standard_name='longitude').points), x.data.copy()) for x in objs]
        o.set_longitude_range(s)
        t.mark('idempotence')
        t.check(all(np.array_equal(a, x.coord(standard_name='longitude').points) and same(b, x.data) for (a, b), x in zip(before, objs)),
                'not-idempotent', t.desc)
    t.seen('g', style, tuple(dims), la['direction'], la['conv'], tuple(starts), bounds, ddt, tuple((a[0], a[2] is None) for a in aux), nvar)
