"""C10: subsetting gridded data; kept cells, their coordinates and values are recomputed axis by axis."""
import datetime
import numpy as np
from vmon import gen
from checks import c09

CASES = {'quick': 3000, 'thorough': 90000}
RULE = ('one observation per distinct (dimension order, directions, longitude convention, bounds?, limited coordinates with form, auxiliary/scalar '
        'coordinates, shape?, list?, outcome) whose every cell was compared')
REQUIRED = {'cells_kept': 5000, 'cells_dropped': 5000, 'empty': 20, 'edge': 100, 'shapes': 50, 'lon_relabelled': 100, 'lists': 50, 'refusals': 10,
            'shape_masked': 200, 'shape_inside': 200, 'missing_kept': 100, "seam_crossed": 15}
ASSUMPTIONS = ['cells within 1e-9 of a limit without being exactly on it are not judged, nor are cells within 1e-7 of the outline of a shape',
               'latitude/longitude cells with bounds are kept when the bounds meet the limits (as the existing tests pin), other coordinates are judged by point',
               'longitude limits are ascending and at most 360 degrees wide; grids do not repeat a meridian']
NAMES = {'latitude': ['latitude', 'y', 'lat'], 'longitude': ['longitude', 'x', 'lon'], 'altitude': ['altitude', 'z'],
         'air_pressure': ['air_pressure'], 'time': ['time', 't'], 'wave': ['wave']}


def limit(r, k, x):
    if k == 'longitude':
        width = float(r.choice([3., 45., 120., 180., 300., 359., 360.]))
        lo = float(r.integers(-180, 181)) if r.random() < .6 else float(r.choice(x))
        lo += float(r.choice([0, 0, 0, -180, 180, 360]))
        sp = [lo, lo + width]
        return (slice(*sp) if r.random() < .3 else sp), lo, lo + width, str('box')
    s = np.sort(x)
    a, b = sorted(r.integers(0, len(s), 2))
    lo, hi = float(s[a]), float(s[b])
    span = max(s[-1] - s[0], 1e-2)
    st = r.random()
    if st < .35:
        lo, hi = np.round(lo - r.uniform(0, .2) * span, 2), np.round(hi + r.uniform(0, .2) * span, 2)
    elif st < .42:
        lo, hi = hi + 2 * span, hi + 3 * span
    lo, hi = float(lo), float(hi)
    if k == 'latitude':
        lo, hi = min(lo, 89.), min(hi, 90.)
    form = str(r.choice(['list', 'slice', 'tuple', 'lower', 'upper', 'none'], p=[.4, .2, .1, .1, .1, .1]))
    dt = k == 'time' and r.random() < .8
    if dt:
        if r.random() < .3:
            sp, lo, hi, tol, form, grey = c09_partial(r, x)
            return sp, lo, hi, form
        u = lambda q: (datetime.datetime(1600, 1, 1) + datetime.timedelta(seconds=round(q * 86400)))
        d0, d1 = u(lo), u(hi)
        lo, hi = gen.days(d0), gen.days(d1)
        form = 'dt' + form
        sp = [d0, d1]
    else:
        sp = [lo, hi]
    if 'slice' in form:
        sp = slice(*sp)
    elif 'tuple' in form:
        sp = tuple(sp)
    elif 'lower' in form:
        sp, hi = [sp[0], None], None
    elif 'upper' in form:
        sp, lo = slice(None, sp[1]), None
    elif 'none' in form:
        sp, lo, hi = [None, None], None, None
    return sp, lo, hi, form


def c09_partial(r, x):
    from cis.time_util import PartialDateTime
    d = c09.as_datetime(r.choice(x))
    q = int(r.integers(1, 5))
    start = datetime.datetime(*([d.year, d.month, d.day, d.hour][:q] + [1] * max(0, 3 - q)))
    end = {1: lambda: datetime.datetime(d.year + 1, 1, 1), 2: lambda: datetime.datetime(d.year + d.month // 12, d.month % 12 + 1, 1),
           3: lambda: start + datetime.timedelta(days=1), 4: lambda: start + datetime.timedelta(hours=1)}[q]() - datetime.timedelta(seconds=1)
    pd = PartialDateTime(*[d.year, d.month, d.day, d.hour][:q])
    return (pd if r.random() < .5 else [pd]), gen.days(start), gen.days(end), 1.2e-9, 'partial%d' % q, None


def judge(k, x, b, lo, hi):
    """(keep, unsure) per cell of one axis."""
    n = len(x)
    if k in ('latitude', 'longitude'):
        lo_, hi_ = (-1e9 if lo is None else lo), (1e9 if hi is None else hi)
        e0, e1 = (np.minimum(b[:, 0], b[:, 1]), np.maximum(b[:, 0], b[:, 1])) if b is not None else (x, x)
        keep, unsure, exact = np.zeros(n, bool), np.zeros(n, bool), 0
        for j in (range(-4, 5) if k == 'longitude' else [0]):
            a0, a1 = e0 + 360. * j, e1 + 360. * j
            keep |= (a1 >= lo_) & (a0 <= hi_)
            for q in (a1 - lo_, a0 - hi_):
                unsure |= (np.abs(q) < 1e-9) & (q != 0)
                if b is not None:
                    unsure |= q == 0      # touching only: pinned for one case by the tests, not judged in general
                else:
                    exact += (q == 0).sum()
        return keep, unsure, exact
    keep, unsure, exact = np.ones(n, bool), np.zeros(n, bool), 0
    for lim, sgn in ((lo, 1), (hi, -1)):
        if lim is None:
            continue
        d = sgn * (x - lim)
        keep &= d >= 0
        unsure |= (np.abs(d) < 1.2e-9 * max(1, abs(lim) / 1e5)) & (d != 0)
        exact += (d == 0).sum()
    return keep, unsure, exact


def case(t):
    from cis.data_io.gridded_data import GriddedData, GriddedDataList
    from cis.exceptions import CoordinateNotFoundError
    from iris.coords import AuxCoord, DimCoord
    r = t.rng
    nd = int(r.choice([1, 2, 2, 3, 4]))
    kinds = [str(k) for k in r.permutation(gen.STD)][:nd]
    wantshape = r.random() < .3
    if wantshape and r.random() < .9:
        kinds = [str(k) for k in r.permutation(['latitude', 'longitude'])]
    bounds = r.random() < .4
    axes = [gen.axis(r, k, int(r.choice([1, 2, 4, 7, 12]))) for k in kinds]
    if 'time' in kinds and r.random() < .7:
        a = axes[kinds.index('time')]
        n = len(a['points'])
        step = float(r.choice([1., .25, 1 / 24.]))
        a['points'] = np.floor(a['points'].min()) + np.arange(n) * step
        if r.random() < .3:
            a['points'] = a['points'][::-1].copy()
        q = step / 2 * (-1 if n > 1 and a['points'][1] < a['points'][0] else 1)
        a['bounds'] = np.stack([a['points'] - q, a['points'] + q], 1)
    if r.random() < .3 and 'longitude' in kinds:      # exactly representable meridians
        a = axes[kinds.index('longitude')]
        n = len(a['points'])
        st = float(r.choice([5, 10, 22.5])) if n > 1 else 5.
        a['points'] = float(r.choice([-180, 0, -90, 100])) + st * np.arange(n)
        a['bounds'] = np.stack([a['points'] - st / 2, a['points'] + st / 2], 1)
        a['conv'] = 'exact'
    shape = tuple(len(a['points']) for a in axes)
    nvar = int(r.choice([1, 1, 1, 2, 3]))
    aux, scal = [], []
    want_aux = r.random() < .5
    auxd = int(r.integers(0, len(axes)))
    wave = r.permutation(shape[auxd]).astype(float) * 10 + 300
    a2 = r.integers(0, 1000, shape[:2]).astype(float) if len(axes) > 1 else None
    rest = [k for k in gen.STD if k not in kinds]
    sc = str(r.choice(rest)) if rest and r.random() < .3 else None
    scv = None
    timeunit = str(r.choice(['std', 'days since 1970-01-01', 'hours since 1900-01-01']))
    toff = {'std': (0, 1), 'days since 1970-01-01': (gen.days(datetime.datetime(1970, 1, 1)), 1.), 'hours since 1900-01-01': (gen.days(datetime.datetime(1900, 1, 1)), 24.)}[timeunit]
    if sc:
        scv = {'latitude': 10., 'longitude': 350., 'altitude': 500., 'air_pressure': 850., 'time': 150000.25}[sc]
    gs, arrs = [], []
    for v in range(nvar):
        val = gen.values(r, int(np.prod(shape))).reshape(shape)
        if r.random() < .2 and not np.ma.isMaskedArray(val):
            val = val.astype('i4')
        arrs.append(np.ma.asarray(val).copy())
        a = []
        if want_aux:
            a.append((AuxCoord(wave, long_name='wave', var_name='wave', units='nm'), auxd))
            if a2 is not None:
                a.append((AuxCoord(a2, long_name='two', var_name='two', units='K'), (0, 1)))
        g = gen.cube(axes, val.copy(), 'v%d' % v, 'K', bounds, a)
        if sc:
            u = gen.std_time_unit() if sc == 'time' else {'altitude': 'm', 'air_pressure': 'hPa'}.get(sc, 'degrees')
            g.add_aux_coord(DimCoord([scv], standard_name=sc, units=u, var_name={'latitude': 'lat', 'longitude': 'lon'}.get(sc, sc)))
        if timeunit != 'std' and 'time' in kinds:
            import cf_units
            g.coord('time').convert_units(cf_units.Unit(timeunit, calendar='gregorian'))
        g.attributes['source'] = 'made up'
        gs.append(g)
    islist = nvar > 1 or r.random() < .15
    data = GriddedDataList(gs) if islist else gs[0]
    keeps = [np.ones(n, bool) for n in shape]
    unsures = [np.zeros(n, bool) for n in shape]
    kw, forms, lonlim, whole, wunsure = {}, [], None, True, False
    pool = [k for k in kinds if r.random() < .5] + (['wave'] if want_aux and r.random() < .2 else []) + ([sc] if sc and r.random() < .4 else [])
    tnum = timeunit == 'std' or 'time' not in kinds
    for k in [str(q) for q in r.permutation(pool)]:
        if k == sc:
            x, b, d = np.array([scv]), None, None
        elif k == 'wave':
            x, b, d = wave, None, auxd
        else:
            d = kinds.index(k)
            x, b = axes[d]['points'], axes[d]['bounds'] if bounds else None
        sp, lo, hi, form = limit(r, k, x)
        if k == 'time' and form in ('list', 'slice', 'tuple', 'lower', 'upper') and not tnum and k != sc:
            # numbers are in the units of the coordinate
            f = lambda q: None if q is None else float((q - toff[0]) * toff[1])
            sp = [f(lo), f(hi)]
            unsures[d] |= np.any([np.abs(x - q) < 1e-6 for q in (lo, hi) if q is not None], axis=0)
        kw[str(r.choice(NAMES[k]))] = sp
        forms.append((k, form))
        kp, un, ex = judge(k, x, b, lo, hi)
        if k == 'time' and not tnum:
            un |= np.any([np.abs(x - q) < 1e-9 for q in (lo, hi) if q is not None] + [np.zeros(len(x), bool)], axis=0)
        if k == 'longitude':
            lonlim = (lo, hi)
        if d is None:
            whole &= bool(kp[0])
            wunsure |= bool(un[0])
        else:
            keeps[d] &= kp
            unsures[d] |= un
        t.mark('edge', ex)
    poly = None
    if wantshape and 'latitude' in kinds and 'longitude' in kinds:
        iy, ix = kinds.index('latitude'), kinds.index('longitude')
        la, lo_ = axes[iy]['points'], axes[ix]['points']
        size = float(r.choice([8., 30., 90.]))
        px, py = c09.polygon(r, r.choice(lo_) + r.uniform(-1, 1) * size / 2 + 360. * int(r.choice([0, 0, 0, -1, 1])), r.choice(la) + r.uniform(-1, 1) * size / 2, size)
        px, py = np.round(px, 4), np.round(py, 4)
        if px.max() - px.min() < 350 and len(set(zip(px, py))) > 2:
            poly = (px, py)
            wkt = 'POLYGON((' + ', '.join('%.4f %.4f' % p for p in zip(list(px) + [px[0]], list(py) + [py[0]])) + '))'
            kw['shape'] = wkt
            if r.random() < .4:
                from shapely.wkt import loads
                kw['shape'] = loads(wkt)
            if r.random() < .5:
                kw = {k: kw[k] for k in r.permutation(list(kw)).tolist()}
            for k, c, e in (('latitude', iy, (py.min(), py.max())), ('longitude', ix, (px.min(), px.max()))):
                if not any(f[0] == k for f in forms):
                    kp, un, _ = judge(k, axes[c]['points'], axes[c]['bounds'] if bounds else None, *e)
                    keeps[c] &= kp
                    unsures[c] |= un
            if len(shape) > 2 and all((k & ~u).any() for k, u in zip(keeps, unsures)) and whole and not wunsure:
                try:
                    data.subset(**kw)
                    t.fail('shape-on-many-dimensions', 'accepted')
                except NotImplementedError:
                    t.mark('refusals')
                return
            if len(shape) > 2:
                return
    if r.random() < .05:
        bad = str(r.choice(['coord', 'shape', 'limit']))
        k2 = dict(kw)
        k2.update({'coord': {'nonsense': [0, 1]}, 'shape': {'shape': 'POLYGON((oops'}, 'limit': {kinds[0]: [1, 2, 3]}}[bad])
        try:
            data.subset(**k2)
            t.fail('bad-request-accepted', bad)
        except (CoordinateNotFoundError, ValueError):
            t.mark('refusals')
        return
    t.describe('dims %s shape %s bounds=%s aux=%s scalar=%s nvar=%d list=%s limits %s lon %s' % (
        kinds, shape, bounds, want_aux, sc, nvar, islist, kw, axes[kinds.index('longitude')]['points'] if 'longitude' in kinds else None))
    if islist:
        t.mark('lists')
    out = data.subset(**kw)
    must = whole and not wunsure and all((k & ~u).any() for k, u in zip(keeps, unsures))
    may = (whole or wunsure) and all((k | u).any() for k, u in zip(keeps, unsures))
    if out is None:
        if poly is None:
            t.check(not must, 'cells-lost', lambda: '%s: everything' % t.desc)
        else:
            t.check(not must or not inside(poly, axes, kinds)[0].any(), 'cells-lost', lambda: '%s: everything' % t.desc)
        t.mark('empty')
        t.seen('empty', tuple(kinds), tuple(forms), poly is not None, islist)
        return
    if not t.check(may, 'cells-not-dropped', lambda: '%s: expected nothing, got %s' % (t.desc, [g.shape for g in gen.as_list(out)])):
        return
    if not t.check(isinstance(out, GriddedDataList if islist else GriddedData), 'result-type', lambda: '%s %s' % (type(out), t.desc)):
        return
    out = gen.as_list(out)
    if not t.check(len(out) == nvar and all(isinstance(o, GriddedData) for o in out), 'result-count', t.desc):
        return
    for v, o in enumerate(out):
        if not t.check(o.ndim == len(shape), 'dimensions-lost', lambda: '%s: %s' % (t.desc, o.shape)):
            return
        sel = []
        for d, k in enumerate(kinds):
            cs = o.coords(k, dim_coords=True)
            if not t.check(len(cs) == 1 and o.coord_dims(cs[0]) == (d,), 'dimension-coordinate', lambda: '%s: %s' % (t.desc, k)):
                return
            y = cs[0].points
            if k == 'time' and timeunit != 'std':
                y = y / toff[1] + toff[0]
            x = axes[d]['points']
            if k == 'longitude':
                m = np.abs((x[None, :] - y[:, None] + 180) % 360 - 180)
            else:
                m = np.abs(x[None, :] - y[:, None])
            i = m.argmin(axis=1)
            tol = 1e-7 if k == 'time' else 1e-9 if k in ("longitude", "latitude") else 0
            if not t.check((m.min(axis=1) <= tol).all() and len(set(i)) == len(i), 'invented-cells', lambda: '%s: %s %s' % (t.desc, k, y)):
                return
            got = np.zeros(len(x), bool)
            got[i] = True
            bad = (got != keeps[d]) & ~unsures[d]
            if not t.check(not bad.any(), 'wrong-selection', lambda: '%s: axis %s cells %s kept=%s' % (t.desc, k, x[bad], got[bad])):
                return
            if bounds:
                b0 = axes[d]['bounds'][i]
                b1 = cs[0].bounds
                if not t.check(b1 is not None, 'bounds-lost', t.desc):
                    return
                if k == 'time' and timeunit != 'std':
                    b1 = b1 / toff[1] + toff[0]
                off = (y - x[i])[:, None] if k == 'longitude' else 0
                t.check(np.allclose(b1, b0 + off, rtol=0, atol=1e-9), 'bounds-detached', lambda: '%s: %s %s vs %s' % (t.desc, k, b1, b0))
            else:
                t.check(cs[0].bounds is None, 'bounds-invented', t.desc)
            if k == 'longitude' and lonlim:
                e = cs[0].bounds if bounds else y[:, None]
                e0, e1 = e.min(axis=1), e.max(axis=1)
                t.check(((e1 >= lonlim[0] - 1e-9) & (e0 <= lonlim[1] + 1e-9)).all(), 'longitude-not-in-requested-range', lambda: '%s: %s' % (t.desc, y))
                t.mark('lon_relabelled', (np.abs(y - x[i]) > 1).sum())
                t.mark('seam_crossed', int(len(i) > 1 and (np.abs(np.diff(i)) > 1).any()))
            elif k == 'longitude' and not poly:
                t.check(np.array_equal(y, x[i]), 'longitude-changed', t.desc)
            sel.append(i)
        ref = arrs[v][np.ix_(*sel)]
        if poly:
            inn, dist = inside(poly, axes, kinds)
            inn, un = inn[np.ix_(*sel)], (dist < 1e-7)[np.ix_(*sel)]
            m = np.ma.getmaskarray(ref) | ~inn
            gm = np.ma.getmaskarray(np.ma.asarray(o.data))
            got = np.ma.asarray(o.data)
            badm = (gm != m) & ~un
            t.check(not badm.any(), 'shape-mask', lambda: '%s: var %d\n%s\nexpected\n%s' % (t.desc, v, got, np.ma.masked_array(ref.data, m)))
            ok = ~m & ~gm
            t.check(np.array_equal(got.data[ok], ref.data[ok]), 'values-detached', t.desc)
            t.mark('shape_masked', gm.sum())
            t.mark('shape_inside', ok.sum())
            t.mark('shapes')
        else:
            t.check(gen.compatible(o.data, ref, 0, 0), 'values-detached', lambda: '%s: var %d %s expected %s' % (t.desc, v, o.data, ref))
            t.mark('missing_kept', np.ma.getmaskarray(ref).sum())
        t.check(o.data.dtype == arrs[v].dtype, 'dtype', lambda: '%s %s' % (o.data.dtype, arrs[v].dtype))
        if want_aux:
            t.check(np.array_equal(o.coord('wave').points, wave[sel[auxd]]) and o.coord_dims('wave') == (auxd,), 'auxiliary-detached', t.desc)
            if a2 is not None:
                t.check(np.array_equal(o.coord('two').points, a2[np.ix_(*sel[:2])]), 'auxiliary-detached', t.desc)
        if sc:
            t.check(abs((o.coord(sc).points[0] - scv + (180 if sc == 'longitude' else 0)) % (360 if sc == 'longitude' else 1e12) - (180 if sc == 'longitude' else 0)) < 1e-9
                    and o.coord_dims(sc) == (), 'scalar-coordinate', lambda: '%s %s' % (t.desc, o.coord(sc)))
        t.check((o.var_name, o.long_name, str(o.units), o.attributes.get('source')) == ('v%d' % v, 'v%d long' % v, 'K', 'made up'), 'metadata', t.desc)
        t.mark('cells_kept', ref.size)
        t.mark('cells_dropped', arrs[v].size - ref.size)
    for v, g in enumerate(gs):
        t.check(gen.compatible(g.data, arrs[v], 0, 0) and 'history' not in g.attributes, 'input-changed', t.desc)
    t.seen(tuple(kinds), tuple(a['direction'] for a in axes), tuple(sorted(forms)), bounds, want_aux, sc, poly is not None, islist,
           axes[kinds.index('longitude')]['conv'] if 'longitude' in kinds else None, all(k.all() for k in keeps))


def inside(poly, axes, kinds):
    """(inside, distance to outline) of every cell centre of a two-dimensional grid, in the grid's own order."""
    iy = kinds.index('latitude')
    la, lo = axes[iy]['points'], axes[1 - iy]['points']
    y, x = np.meshgrid(la, lo, indexing='ij')
    inn, dist = np.zeros(y.shape, bool), np.full(y.shape, np.inf)
    for j in range(-4, 5):
        a, d = c09.inside_polygon(poly[0], poly[1], x.ravel() + 360. * j, y.ravel())
        inn |= a.reshape(y.shape)
        dist = np.minimum(dist, d.reshape(y.shape))
    return (inn, dist) if iy == 0 else (inn.T, dist.T)
