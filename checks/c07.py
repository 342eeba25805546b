"""C07: aggregating ungridded data; the grid is predicted from the request alone, and a recording kernel (or the real
kernels) shows exactly which points each cell was given."""
import datetime
import numpy as np
from vmon import gen
from checks.c06 import recorder

CASES = {'quick': 2000, 'thorough': 9000}
RULE = ('one observation per distinct (gridded coordinates and how they were named and specified, data coordinates, kernel, '
        'mask class, list?, shape) whose every cell was compared')
REQUIRED = {'clashing_names': 60, 'cells_judged': 3000, 'points_placed': 5000, 'points_outside': 300, 'edge_points': 100, 'axes_gridded': 300,
            'axes_collapsed': 300, 'count_totals': 100, 'refusals': 10}
ASSUMPTIONS = ['whether a point lying exactly at the very end of the requested range is counted is not judged',
               'where the step does not divide the range the last cell extends past the end and is judged by its own bounds',
               'a step is always given (the manual says it may be left out, the command line parser refuses that)']

STEPS = {'latitude': [1., 2.5, 7., 30., 90., .3, 10], 'longitude': [.9, 3., 7.5, 30., 45, 120., 360.],
         'altitude': [100., 333.3, 1000, 5000.], 'air_pressure': [20., 100, 333.], 'time': [1., .25, .1, 2., 0.0208333333333]}
NAMES = {'latitude': ['latitude', 'y', 'Y', 'lat_v'], 'longitude': ['longitude', 'x', 'X', 'lon_v'], 'altitude': ['altitude', 'z', 'alt_v'],
         'air_pressure': ['air_pressure', 'p', 'pres_v'], 'time': ['time', 't', 'T', 'time_v']}
UNITV = {'latitude': ['degrees_north', 'degrees', 'degrees north', 'degree_north'], 'longitude': ['degrees_east', 'degrees', 'degrees east'],
         'altitude': ['m', 'meters', 'metres'], 'air_pressure': ['hPa', 'mbar', 'Pa']}
KERN = ['mean', 'min', 'max', 'sum', 'stddev', 'moments', '']


def ref(kernel, vals):
    n = len(vals)
    if kernel == 'mean':
        return [vals.mean()]
    if kernel == 'min':
        return [vals.min()]
    if kernel == 'max':
        return [vals.max()]
    if kernel == 'sum':
        return [vals.sum()]
    if kernel == 'stddev':
        return [vals.std(ddof=1) if n > 1 else None]
    return [vals.mean(), vals.std(ddof=1) if n > 1 else None, n]


def request(r, k, x):
    """(spec, lower edge, step, number of cells, stop, how): the request for one axis, and the grid it denotes."""
    step = float(r.choice(STEPS[k]))
    n = int(r.integers(1, 7))
    how = str(r.choice(['list', 'slice', 'auto', 'autolo', 'div'])) if k != 'time' else \
        str(r.choice(['list', 'slice', 'datetime', 'partial', 'auto', 'autohi']))
    if k == 'longitude':
        n = min(n, int(360 // step))
    if k == 'latitude':
        n = min(n, int(180 // step))
    lo, hi = x.min(), x.max()
    start = float(np.round(r.uniform(lo - 1, max(hi - n * step, lo) + 1) if r.random() < 0.6 else lo - r.choice([0, .5]) * step, int(r.integers(0, 2))))
    if k == 'latitude':
        start = float(np.clip(start, -90, 90 - n * step))
    if k == 'longitude' and r.random() < .3:
        start = float(start + r.choice([-360, 360]))
    stop = start + n * step
    if k == 'longitude' and stop - start > 360:
        return request(r, k, x)
    if r.random() < 0.2 and n > 1 and how in ('list', 'slice'):
        stop = start + (n - 1 + float(r.uniform(.2, .8))) * step      # does not divide
    if how == 'partial':
        from cis.time_util import PartialDateTime
        d = datetime.datetime(1600, 1, 1) + datetime.timedelta(days=float(np.median(x)))
        if r.random() < .5:
            pd = PartialDateTime(d.year, d.month, d.day)
            a = datetime.datetime(d.year, d.month, d.day)
            td = datetime.timedelta(hours=float(r.choice([1, 3, 6, 24])))
            b = a + datetime.timedelta(days=1) - datetime.timedelta(seconds=1)
        else:
            pd = PartialDateTime(d.year, d.month)
            a = datetime.datetime(d.year, d.month, 1)
            b = datetime.datetime(d.year + d.month // 12, d.month % 12 + 1, 1) - datetime.timedelta(seconds=1)
            td = datetime.timedelta(days=float(r.choice([1, 3, 10])))
        start, stop, step = gen.days(a), gen.days(b), td.total_seconds() / 86400.
        return [pd, td], start, step, int(np.ceil((stop - start) / step - 1e-6)), stop, how
    if how == 'datetime':
        d0 = datetime.datetime(1600, 1, 1) + datetime.timedelta(days=int(np.floor(start)), hours=int(r.integers(0, 24)))
        td = datetime.timedelta(minutes=int(r.choice([30, 60, 360, 1440, 2880])))
        d1 = d0 + n * td
        start, stop, step = gen.days(d0), gen.days(d1), td.total_seconds() / 86400.
        spec = [d0, d1, td]
        if r.random() < .3:
            spec = slice(*spec)
        return spec, start, step, n, stop, how
    spec = [start, stop, step]
    if how in ('auto', 'autolo', 'autohi'):
        if how != 'autohi':
            start = float(lo)
            spec[0] = None
        if how != 'autolo':
            stop = float(hi)
            spec[1] = None
        if stop <= start or (stop - start) / step > 60:
            return request(r, k, x)
        if k == 'latitude' and stop + step > 90:
            pass
    elif how == 'div':
        if all(float(v).is_integer() for v in spec):
            spec = [int(v) for v in spec]
    n = int(np.ceil(np.round((stop - start) / step, 5)))
    if abs((stop - start) / step - np.round((stop - start) / step)) < 1e-4 and abs((stop - start) / step - np.round((stop - start) / step)) > 1e-8:
        return request(r, k, x)
    if k == 'longitude' and (n * step > 360 + 1e-9):
        return request(r, k, x)
    return (slice(*spec) if how == 'slice' else spec), start, step, n, stop, how


def case(t):
    from cis.data_io.ungridded_data import UngriddedDataList, UngriddedData
    from cis.data_io.Coord import CoordList
    from cis.exceptions import CoordinateNotFoundError
    r = t.rng
    have = [str(k) for k in r.permutation(gen.STD)][:int(r.integers(1, 6))]
    n = int(r.choice([1, 2, 8, 40, 150]))
    coords = gen.rand_coords(r, n, have)
    if 'time' in coords and r.random() < .5:
        coords['time'] = np.floor(coords['time'].min()) + np.round((coords['time'] - coords['time'].min()) * 24) / 24.
    for k in have:
        if k in ('altitude', 'air_pressure') and r.random() < .3:
            coords[k] = np.maximum(1, np.round(coords[k], -2))
    gridded = [k for k in r.permutation(have).tolist() if r.random() < .6]
    shape = (2, n // 2) if n % 2 == 0 and r.random() < .25 else (n,)
    nvar = int(r.choice([1, 1, 2]))
    unitv = {k: str(r.choice(v)) for k, v in UNITV.items()}
    cl = CoordList([gen.coord(k, coords[k].copy().reshape(shape), name={'latitude': 'lat_v', 'longitude': 'lon_v', 'altitude': 'alt_v',
                    'air_pressure': 'pres_v', 'time': 'time_v'}[k], units=unitv.get(k)) for k in have])
    variables, valid, vals = [], [], []
    vnames = ['v0', 'v1']
    if r.random() < .08:        # a variable which is called like a coordinate of the result
        vnames[int(r.integers(0, nvar))] = str(r.choice([c.name() for c in cl]))
    for v in range(nvar):
        mk = str(r.choice(['plain', 'nomask', 'some', 'all'], p=[.4, .15, .4, .05]))
        bad = np.zeros(n, bool)
        val = np.arange(n) + 1000. * (v + 1)
        arr = val.copy()
        if mk != 'plain':
            bad = r.random(n) < {'nomask': 0, 'some': .3, 'all': 1.1}[mk]
            arr = np.ma.masked_array(arr, mask=bad)
        valid.append(~bad)
        vals.append(val)
        vname = vnames[v]
        variables.append(UngriddedData(arr.reshape(shape), gen.meta(name=vname, long_name=vname + ' long', units='K'), cl))
    data = UngriddedDataList(variables) if nvar > 1 or r.random() < .2 else variables[0]
    kw, grid = {}, {}
    for k in gridded:
        spec, start, step, cells, stop, how = request(r, k, coords[k])
        name = str(r.choice(NAMES[k]))
        kw[name] = spec
        grid[k] = (start, step, cells, stop, how, name)
    # bound the product of cells
    while np.prod([g[2] for g in grid.values()] or [1]) > 1500:
        k = max(grid, key=lambda q: grid[q][2])
        del kw[grid[k][5]]
        del grid[k]
    for k in have:
        if k not in grid and r.random() < .25:
            kw[str(r.choice(NAMES[k][:2]))] = None
    kernel = str(r.choice(['recorder'] * 5 + KERN))
    rec = recorder() if kernel == 'recorder' else kernel
    t.describe('coords %s n=%d shape=%s nvar=%d kernel=%s units=%s request %s' % (have, n, shape, nvar, kernel, unitv, kw))
    if r.random() < .06:
        bad = dict(kw)
        bad['nonsense'] = None if r.random() < .5 else [0., 1., .5]
        try:
            data.aggregate(how=rec, **bad)
            t.fail('unknown-coordinate-accepted', t.desc)
        except CoordinateNotFoundError:
            t.mark('refusals')
        return
    if r.random() < .04:
        from cis.data_io.Coord import Coord
        for v in variables:
            if not v.coords(name_or_coord='wavelength'):
                v._coords.append(Coord(np.linspace(300, 700, n).reshape(shape), gen.meta(name='wavelength', long_name='wavelength', units='nm')))
        try:
            o = gen.as_list(data.aggregate(how=rec, **dict(kw, wavelength=[300., 700., 100.])))[0]
            # either binned over it or refused, never ignored
            t.check(any(c.name() == 'wavelength' and len(c.points) == 4 for c in o.coords()), 'requested-grid-ignored', t.desc)
        except CoordinateNotFoundError:
            t.mark('refusals')
        return
    if r.random() < .03 and n > 1:
        absent = [k for k in gen.STD if k not in have]
        if absent:
            try:
                data.aggregate(how=rec, **{str(r.choice(NAMES[absent[0]][:2])): [0., 10., 5.]})
                t.fail('absent-coordinate-accepted', t.desc)
            except CoordinateNotFoundError:
                t.mark('refusals')
            return
    out = gen.as_list(data.aggregate(how=rec, **kw))
    nout = 3 if kernel in ('moments', '') else 1
    if not t.check(len(out) == nvar * nout, 'output-count', '%s: %d' % (t.desc, len(out))):
        return
    # the expected grid
    t.mark('axes_gridded', len(grid))
    t.mark('axes_collapsed', len(have) - len(grid))
    want_shape = tuple(grid[k][2] if k in grid else 1 for k in have)
    edges, place, unsure = {}, np.zeros((len(have), n), int), np.zeros(n, bool)
    for o in out:
        names = [c.standard_name for c in o.coords(dim_coords=True)]
        if not t.check(o.shape == want_shape and names == have, 'output-layout', lambda: '%s: %s %s want %s' % (t.desc, names, o.shape, want_shape)):
            return
        for k in have:
            c = o.coord(standard_name=k)
            p, b = np.array(c.points, float), np.sort(np.array(c.bounds, float), axis=1)
            if k in grid:
                start, step, cells, stop, how, _ = grid[k]
                e = start + step * np.arange(cells + 1)
                mids = e[:-1] + step / 2.
                if k == 'latitude' and np.abs(mids).max() <= 90:
                    e = np.clip(e, -90, 90)      # cells stop at the poles
                tol = 1e-8 * max(1, abs(start))
                if cells == 1:
                    okb = abs(b[0, 0] - e[0]) < tol and (abs(b[0, 1] - stop) < tol or abs(b[0, 1] - e[1]) < tol)
                else:
                    okb = np.allclose(b, np.stack([e[:-1], e[1:]], 1), atol=tol, rtol=0)
                t.check(okb and np.allclose(p, mids, atol=tol, rtol=0), 'wrong-grid', lambda: '%s: %s points %s bounds %s want edges %s' % (
                    t.desc, k, p[:4], b[:4].tolist(), e[:5]))
            else:
                mn, mx = coords[k].min(), coords[k].max()
                t.check(np.allclose([b[0, 0], b[0, 1], p[0]], [mn, mx, (mn + mx) / 2.], rtol=1e-12), 'wrong-collapsed-cell',
                        lambda: '%s: %s %s %s want %s..%s' % (t.desc, k, p, b, mn, mx))
            edges[k] = b
    for d, k in enumerate(have):
        if k not in grid:
            continue
        x, b = coords[k], edges[k]
        # a first guess by exact arithmetic, with anything within rounding of an edge left undecided unless it is exact
        cand = [x] if k != 'longitude' else [x + 360. * j for j in range(-3, 4)]
        place[d] = -1
        for c in cand:
            inside = (c[:, None] >= b[None, :, 0]) & (c[:, None] < b[None, :, 1])
            place[d] = np.where(inside.any(axis=1), inside.argmax(axis=1), place[d])
            gap = np.abs(c[:, None] - b.ravel()[None, :])
            close = gap < 1e-8 * max(1, np.abs(b).max())
            # interior edges hit exactly belong to the upper cell; the rounded ones and the very end are not judged
            dyad = lambda z: np.round(z * 1024) == z * 1024
            exact = (gap == 0) & dyad(c)[:, None] & dyad(b.ravel())[None, :] & dyad(np.array(grid[k][1])) & (b.ravel() < b.max())[None, :]
            t.mark('edge_points', int(((gap == 0) & exact).any(axis=1).sum()))
            unsure |= (close & ~exact).any(axis=1)
    outside = (place < 0).any(axis=0)
    t.mark('points_outside', outside.sum())
    for v in range(nvar):
        outs = out[v * nout:(v + 1) * nout]
        arrs = [np.ma.asarray(o.data) for o in outs]
        masks = [np.ma.getmaskarray(a) for a in arrs]
        total = 0
        cellof = np.where(outside, -1, np.ravel_multi_index(np.where(place < 0, 0, place), want_shape))
        for flat, ix in enumerate(np.ndindex(want_shape)):
            t.mark('cells_judged')
            sure = (cellof == flat) & ~unsure & valid[v]
            if kernel == 'recorder':
                must = set(vals[v][sure].tolist())
                may = must | set(vals[v][unsure & valid[v]].tolist())
                if masks[0][ix]:
                    t.check(not must, 'points-lost', lambda: '%s cell %s should hold %s' % (t.desc, ix, sorted(must)[:4]))
                    continue
                sel = rec.calls[int(round(float(arrs[0][ix])))].tolist()
                g = set(sel)
                total += len(sel)
                t.mark('points_placed', len(sel))
                t.check(len(sel) == len(g), 'point-counted-twice', t.desc)
                t.check(must <= g <= may, 'wrong-points-in-cell', lambda: '%s cell %s bounds %s missed %s extra %s (%s)' % (
                    t.desc, ix, [edges[k][i].tolist() for k, i in zip(have, ix)], sorted(must - g)[:4], sorted(g - may)[:4],
                    [{k: coords[k][int(i) % 1000] for k in have} for i in sorted((must - g) | (g - may))[:2]]))
            else:
                if (unsure & valid[v]).any():
                    continue
                x = vals[v][sure]
                for q, m in enumerate(masks):
                    if not len(x):
                        # a count of an empty cell may be nought or missing
                        t.check(m[ix] or (nout == 3 and q == 2 and arrs[q][ix] == 0), 'value-in-empty-cell', lambda: '%s cell %s' % (t.desc, ix))
                        continue
                    w = ref(kernel, x)[q]
                    if w is None:
                        t.check(m[ix], 'stddev-of-one', lambda: '%s cell %s' % (t.desc, ix))
                    elif t.check(not m[ix], 'points-lost', lambda: '%s cell %s' % (t.desc, ix)):
                        t.check(abs(float(arrs[q][ix]) - w) <= 1e-9 * max(1, abs(w)), 'wrong-statistic', lambda: '%s cell %s got %s want %s' % (
                            t.desc, ix, arrs[q][ix], w))
                        t.mark('points_placed', len(x))
        if kernel == 'recorder':
            t.mark('count_totals')
            lo = int((~outside & ~unsure & valid[v]).sum())
            hi = lo + int((unsure & valid[v]).sum())
            t.check(lo <= total <= hi, 'count-not-conserved', lambda: '%s total %d want %d..%d' % (t.desc, total, lo, hi))
        for q, o in enumerate(outs):
            base = vnames[v]
            clash = base not in ('v0', 'v1')
            own = [base, base + '_std_dev', base + '_num_points']
            if clash:
                t.mark('clashing_names')
                own[0] = 'aggregated_' + base
            others = [c.var_name for c in o.coords()]
            t.check(o.var_name not in others, 'clashing-name', lambda: '%s: %s among the coordinates %s' % (t.desc, o.var_name, others))
            if kernel != 'recorder':
                t.check(o.var_name == own[q] and
                        (str(o.units) in ('1', 'unknown', 'no_unit') if q == 2 else str(o.units) == 'K'), 'output-metadata', lambda: '%s: %s %s' % (t.desc, o.var_name, o.units))
    t.seen(tuple((k, grid[k][4], grid[k][5]) for k in have if k in grid), tuple(have), kernel, nvar, len(shape), n)
