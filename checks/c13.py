"""C13: gridded data saved (alone, in lists, by the writer) and read back by any of its names; a raw netCDF4 reader cross-checks the file."""
import datetime
import numpy as np
from vmon import gen

CASES = {'quick': 400, 'thorough': 5000}
CASE_LIMIT = 60
RULE = ('one observation per distinct (dimensions, dtype, mask class, number of variables, auxiliary coordinates, time units, writer, name '
        'kind) whose every cell, coordinate, bound, mask and name was compared after reading back')
REQUIRED = {'cells_compared': 10000, 'masked_cells': 1000, 'aux_coords': 60, 'bounds_compared': 150, 'second_round_trip': 100,
            'by_standard_name': 15, 'by_long_name': 30, 'histories': 60, 'time_converted': 12, 'aux_times': 8, 'hybrids': 10}
ASSUMPTIONS = ['dimension coordinates are named and have units, as CF requires', 'times are compared as instants (reading converts a time '
               'dimension to the standard unit)', 'values equal to the default netCDF fill value are not generated']
DTYPES = ['float64', 'float32', 'int32', 'int16', 'int64', 'int8', 'uint8']
STDN = ['air_temperature', 'specific_humidity', 'eastward_wind']
TU = [None, None, 'hours since 1970-01-01', 'seconds since 2000-01-01 00:00:00', 'days since 1850-01-01', 'minutes since 2010-03-04']


def case(t):
    import cis
    import iris
    from cf_units import Unit
    from iris.coords import AuxCoord, DimCoord
    from cis.data_io.gridded_data import GriddedData, GriddedDataList
    from cis.data_io.data_writer import DataWriter
    r = t.rng
    kinds = [str(k) for k in r.permutation(gen.STD)][:int(r.integers(1, 5))]
    axes = [gen.axis(r, k, n=int(r.integers(1, 6)) if k != 'longitude' else int(r.integers(2, 6))) for k in kinds]
    shape = tuple(len(a['points']) for a in axes)
    tu = r.choice(np.array(TU, object)) if 'time' in kinds else None
    with_b = [bool(r.random() < .5) for _ in axes]
    nvar = int(r.choice([1, 1, 2, 3]))
    naux = int(r.choice([0, 0, 1, 2, 3]))
    auxes = []
    for i in range(naux):
        k = int(r.integers(0, min(3, len(shape) + 1)))
        dims = tuple(sorted(int(x) for x in r.permutation(len(shape))[:k]))
        sh = tuple(shape[d] for d in dims)
        pts = np.round(r.normal(0, 10, sh), 3)
        b = np.stack([pts - 1, pts + 1], -1) if k == 1 and r.random() < .5 else None
        auxes.append((i, dims, pts, b))
    scalar_time = 'time' not in kinds and r.random() < .3
    # a time for every position along another dimension (a trajectory), in standard or other units
    aux_time = None
    if 'time' not in kinds and not scalar_time and r.random() < .3:
        d = int(r.integers(0, len(shape)))
        aux_time = (d, np.sort(150000. + np.round(r.uniform(0, 5, shape[d]), 4)), r.choice(np.array([None, 'hours since 1970-01-01'], object)))
    hybrid = None
    if 'altitude' not in kinds and 'air_pressure' not in kinds and len(kinds) > 1 and r.random() < .35:
        nlev = int(r.integers(2, 5))
        k = int(r.integers(0, len(axes) + 1))
        shape = shape[:k] + (nlev,) + shape[k:]
        hybrid = dict(at=k, delta=np.linspace(10., 900., nlev), sigma=np.linspace(.9, .1, nlev), kind=str(r.choice(['height', 'pressure'])))
        axes.insert(k, None)
        with_b.insert(k, False)
        kinds.insert(k, 'model_level_number')
        auxes = [(i, tuple(d + (d >= k) for d in dims), pts, b) for i, dims, pts, b in auxes]
        if aux_time:
            aux_time = (aux_time[0] + (aux_time[0] >= k),) + aux_time[1:]
        sdims = tuple(d for d in range(len(shape)) if d != k)
        hybrid['sdims'] = sdims
        hybrid['surface'] = np.round(r.uniform(100., 1000., tuple(shape[d] for d in sdims)), 2)

    def dimc(a, b):
        if a is None:
            return DimCoord(np.arange(shape[hybrid['at']]) + 1, standard_name='model_level_number', var_name='lev', units='1', attributes={'positive': 'up'})
        c = gen.dim_coord(a, bounds=b)
        if a['kind'] == 'time' and tu:
            u = Unit(str(tu), calendar='gregorian')
            std = Unit(gen.TUNIT, calendar='gregorian')
            c.convert_units(u)
        return c
    cubes, desc = [], []
    same_dt = r.random() < .3
    for v in range(nvar):
        dt = str(r.choice(DTYPES))
        if dt.startswith('f'):
            val = (r.normal(0, 1, shape) * 10. ** r.integers(-8, 8)).astype(dt)
        else:
            val = r.integers(-100 if dt[0] == 'i' else 0, 100, shape).astype(dt)
        mk = str(r.choice(['plain', 'nomask', 'some', 'all'], p=[.4, .1, .4, .1]))
        bad = np.zeros(shape, bool) if mk in ('plain', 'nomask') else np.ones(shape, bool) if mk == 'all' else r.random(shape) < .3
        arr = val.copy() if mk == 'plain' else np.ma.array(val.copy()) if mk == 'nomask' else np.ma.masked_array(val.copy(), mask=bad)
        names = dict(var_name='v%d' % v)
        if r.random() < .5:
            names['standard_name'] = STDN[v]
        if r.random() < .7:
            names['long_name'] = 'Long name of %d (with, signs)' % v
        u = str(r.choice(['1', 'K', 'hPa', 'm s-1', 'kg m-3']))
        g = GriddedData(arr, units=u, dim_coords_and_dims=[(dimc(a, b), i) for i, (a, b) in enumerate(zip(axes, with_b))], **names)
        for i, dims, pts, b in auxes:
            g.add_aux_coord(AuxCoord(pts.copy(), long_name='aux %d' % i, var_name='aux%d' % i, units='m', bounds=None if b is None else b.copy()), dims)
        if aux_time:
            c = AuxCoord(aux_time[1].copy(), standard_name='time', units=gen.std_time_unit())
            if aux_time[2]:
                c.convert_units(Unit(str(aux_time[2]), calendar='gregorian'))
            g.add_aux_coord(c, aux_time[0])
        if hybrid:
            from iris.aux_factory import HybridHeightFactory, HybridPressureFactory
            ht = hybrid['kind'] == 'height'
            g.add_aux_coord(AuxCoord(hybrid['delta'].copy(), long_name='level_height' if ht else 'level_pressure', var_name='delta_', units='m' if ht else 'Pa'), hybrid['at'])
            g.add_aux_coord(AuxCoord(hybrid['sigma'].copy(), long_name='sigma', var_name='sigma_', units='1'), hybrid['at'])
            g.add_aux_coord(AuxCoord(hybrid['surface'].copy(), standard_name='surface_altitude' if ht else 'surface_air_pressure', units='m' if ht else 'Pa',
                                     var_name='surf'), hybrid['sdims'])
            g.add_aux_factory((HybridHeightFactory if ht else HybridPressureFactory)(*[g.coord(var_name=x) for x in ('delta_', 'sigma_', 'surf')]))
        if scalar_time:
            g.add_aux_coord(AuxCoord(150000.25, standard_name='time', units=gen.std_time_unit()))
        hist = []
        if r.random() < .5:
            # usual case: the variables of a list went through the same command; otherwise each has its own
            hist = ['did something to %s' % ('them' if r.random() < .5 else 'v%d' % v)]
            for h in hist:
                g.add_history(h)
        atts = {}
        if r.random() < .4:
            atts = {'flag%d' % v: 'local', 'number%d' % v: 7}
            g.add_attributes(atts)
        cubes.append((g, val, bad, names, u, hist, atts, g.attributes.get('history')))
        desc.append((dt, mk, sorted(names), bool(hist), bool(atts)))
    writer = str(r.choice(['save', 'list', 'writer'])) if nvar == 1 else str(r.choice(['list', 'writer']))
    t.describe('%s %s bounds=%s vars=%s aux=%s tu=%s scalar_time=%s aux_time=%s hybrid=%s via %s' % (
        kinds, shape, with_b, desc, [(d, b is not None) for _, d, _, b in auxes], tu, scalar_time, aux_time, hybrid and (hybrid['kind'], hybrid['at']), writer))
    data = cubes[0][0] if nvar == 1 and writer != 'list' else GriddedDataList([c[0] for c in cubes])
    path = t.path(str(r.choice(['g.nc', 'grid x.nc', 'a.b.nc'])))
    (DataWriter().write_data(data, path) if writer == 'writer' else data.save_data(path))

    def judge(b, v, tag):
        g, val, bad, names, u, hist, atts, h0 = cubes[v]
        if not t.check(type(b).__name__ == 'GriddedData', 'not-gridded', t.desc):
            return
        if not t.check(b.shape == shape and [c.standard_name for c in b.coords(dim_coords=True)] == kinds, tag + '-dimensions',
                       lambda: '%s: %s %s' % (t.desc, b.shape, [c.name() for c in b.coords(dim_coords=True)])):
            return
        d = np.ma.asarray(b.data)
        gm = np.ma.getmaskarray(d)
        t.mark('cells_compared', d.size)
        t.mark('masked_cells', int(bad.sum()))
        t.check(np.array_equal(gm, bad), tag + '-mask', lambda: '%s var %d: %d masked, want %d' % (t.desc, v, gm.sum(), bad.sum()))
        ok = ~gm & ~bad
        t.check(np.array_equal(np.asarray(d.data)[ok], val[ok]) and d.dtype == val.dtype, tag + '-values',
                lambda: '%s var %d %s %s want %s' % (t.desc, v, d.dtype, np.asarray(d.data)[ok][:3], val[ok][:3]))
        if aux_time:
            c = b.coord(standard_name='time')
            # an instant must stay the same instant; the unit may be converted
            inst = c.units.convert(c.points, Unit(gen.TUNIT, calendar='gregorian')) if c.units != gen.std_time_unit() else c.points
            t.check(c.shape == aux_time[1].shape and np.allclose(inst, aux_time[1], rtol=0, atol=1e-7), tag + '-aux-time', lambda: '%s: %s %r' % (t.desc, c.points, c.units))
            t.mark('aux_times')
        if hybrid:
            t.mark('hybrids')
            name = 'altitude' if hybrid['kind'] == 'height' else 'air_pressure'
            if t.check(len(b.coords(standard_name=name)) == 1, tag + '-hybrid-lost', t.desc):
                c = b.coord(standard_name=name)
                dims = [hybrid['at']] + list(hybrid['sdims'])
                full = hybrid['delta'].reshape((-1,) + (1,) * len(hybrid['sdims'])) + hybrid['sigma'].reshape((-1,) + (1,) * len(hybrid['sdims'])) * hybrid['surface'][None]
                have = np.transpose(c.points, [list(b.coord_dims(c)).index(d) for d in dims])
                t.check(have.shape == full.shape and np.allclose(have, full), tag + '-hybrid', t.desc)
        for a, wb in zip(axes, with_b):
            if a is None:
                continue
            c = b.coord(standard_name=a['kind'])
            pts, bnd = a['points'], a['bounds']
            tol = 0.
            if a['kind'] == 'time':
                t.check(c.units == gen.std_time_unit(), tag + '-time-units', lambda: '%s %r' % (t.desc, c.units))
                t.mark('time_converted', bool(tu))
                tol = 2e-9 if not tu else 2e-8      # a millisecond where the file's unit was another one
            t.check(np.allclose(c.points, pts, rtol=0, atol=tol), tag + '-coord', lambda: '%s %s: %s want %s' % (t.desc, a['kind'], c.points, pts))
            t.check(c.has_bounds() == wb, tag + '-bounds-presence', lambda: '%s %s %s' % (t.desc, a['kind'], c.bounds))
            if wb and c.has_bounds():
                t.mark('bounds_compared')
                t.check(np.allclose(c.bounds, bnd, rtol=0, atol=tol), tag + '-bounds', lambda: '%s %s: %s want %s' % (t.desc, a['kind'], c.bounds, bnd))
            if a['kind'] != 'time':
                t.check(c.units == gen.dim_coord(a).units, tag + '-coord-units', t.desc)
        for i, dims, pts, bb in auxes:
            cs = b.coords(long_name='aux %d' % i)
            if t.check(len(cs) == 1, tag + '-aux-lost', lambda: '%s aux %d' % (t.desc, i)):
                c = cs[0]
                t.mark('aux_coords')
                t.check(tuple(b.coord_dims(c)) == dims and np.array_equal(np.squeeze(c.points), np.squeeze(pts)) and c.units == 'm', tag + '-aux',
                        lambda: '%s aux %d: dims %s %s want %s %s' % (t.desc, i, b.coord_dims(c), c.points, dims, pts))
                t.check((bb is None and not c.has_bounds()) or (c.has_bounds() and bb is not None and np.array_equal(c.bounds, bb)), tag + '-aux-bounds', t.desc)
        if scalar_time:
            c = b.coord(standard_name='time')
            t.check(float(c.points[0]) == 150000.25, tag + '-scalar-time', t.desc)
        t.check(b.var_name == names['var_name'] and b.standard_name == names.get('standard_name') and
                (b.long_name or None) == names.get('long_name'), tag + '-names', lambda: '%s: %r %r %r' % (t.desc, b.var_name, b.standard_name, b.long_name))
        t.check(str(b.units) == u, tag + '-units', lambda: '%s: %r want %r' % (t.desc, b.units, u))
        if hist:
            t.mark('histories')
            got = str(b.attributes.get('history'))
            t.check(got.startswith(h0 or '') and hist[0] in got, tag + '-history', lambda: '%s: %r want %r' % (t.desc, got, h0))
        for k, x in atts.items():
            t.check(b.attributes.get(k) == x, tag + '-attribute', lambda: '%s: %s %r' % (t.desc, k, b.attributes.get(k)))

    def read(p, v):
        names = cubes[v][3]
        kind = str(r.choice(sorted(names)))
        t.mark('by_' + kind)
        return cis.read_data(p, names[kind])
    back = []
    if r.random() < .3 and nvar > 1:
        try:
            back = list(cis.read_data_list(path, ['v%d' % v for v in range(nvar)]))
        except Exception:
            raise
    else:
        back = [read(path, v) for v in range(nvar)]
    for v, b in enumerate(back):
        judge(b, v, 'reread')
    vs = cis.get_variables(path)
    t.check(set('v%d' % v for v in range(nvar)) <= set(vs), 'variables-listed', lambda: '%s: %s' % (t.desc, vs))
    # processing history grows
    for b in back:
        b.add_history('and then more')
    p2 = t.path('second.nc')
    (back[0] if nvar == 1 else GriddedDataList(back)).save_data(p2)
    for v in range(nvar):
        b = read(p2, v)
        judge(b, v, 'second')
        h = str(b.attributes.get('history'))
        t.check('and then more' in h, 'second-history-extended', lambda: '%s: %r' % (t.desc, h))
    t.mark('second_round_trip')
    try:
        cis.read_data(path, 'nosuch')
        t.fail('unknown-variable-accepted', t.desc)
    except Exception:
        pass
    t.seen(tuple(kinds), tuple(desc), tuple(d for _, d, _, _ in auxes), str(tu), writer, scalar_time)
