"""C08: collapsing gridded data; every remaining cell, coordinate and derived coordinate is recomputed with plain numpy."""
import numpy as np
from vmon import gen

CASES = {'quick': 1680, 'thorough': 8000}
RULE = ('one observation per distinct (dimension order, collapsed set and naming, kernel, mask class, laziness, auxiliary layout, hybrid layout, '
        'number of variables) whose every cell and coordinate was compared')
REQUIRED = {'cells_judged': 3000, 'weighted': 30, 'masked_input': 50, 'all_missing_cells': 20, 'aux_partial': 40, 'derived_checked': 15,
            'refusals': 8, 'lazy': 40, 'guessed_bounds': 40}
ASSUMPTIONS = ['area weights need both latitude and longitude (iris refuses otherwise)',
               'the kernels median, gmean and hmean are judged on data without missing values and strictly positive where they need it; peak is not judged']

KERN = ['mean', 'sum', 'min', 'max', 'moments', '', 'RMS', 'median', 'gmean', 'hmean', 'obj_mean', 'obj_max']
NAME = {'latitude': ['latitude', 'lat', 'y', 'Y'], 'longitude': ['longitude', 'lon', 'x'], 'time': ['time', 't'],
        'altitude': ['altitude', 'z'], 'air_pressure': ['air_pressure', 'p'], 'model_level_number': ['model_level_number']}


def reference(kernel, a, axes_, w):
    """list of (values, mask) for masked array a over the tuple of dimensions axes_."""
    m = np.ma.getmaskarray(a)
    x = np.where(m, 0, np.asarray(a.data, float))
    ok = (~m).astype(float)
    n = ok.sum(axis=axes_)
    none = n == 0
    ww = ok if w is None else ok * w
    tot = ww.sum(axis=axes_)
    safe = np.where(tot == 0, 1, tot)
    mean = (x * ww).sum(axis=axes_) / safe
    out = {}
    if kernel in ('mean', 'obj_mean'):
        return [(mean, none)]
    if kernel == 'sum':
        return [((x * ok).sum(axis=axes_), none)]
    if kernel in ('min',):
        return [(np.where(m, np.inf, np.asarray(a.data, float)).min(axis=axes_), none)]
    if kernel in ('max', 'obj_max'):
        return [(np.where(m, -np.inf, np.asarray(a.data, float)).max(axis=axes_), none)]
    if kernel == 'RMS':
        return [(np.sqrt((x ** 2 * ww).sum(axis=axes_) / safe), none)]
    if kernel == 'median':
        return [(np.median(np.asarray(a.data, float), axis=axes_), none)]
    if kernel == 'gmean':
        return [(np.exp(np.log(np.asarray(a.data, float)).mean(axis=axes_)), none)]
    if kernel == 'hmean':
        return [(1 / (1 / np.asarray(a.data, float)).mean(axis=axes_), none)]
    um = (x * ok).sum(axis=axes_, keepdims=True) / np.where(ok.sum(axis=axes_, keepdims=True) == 0, 1, ok.sum(axis=axes_, keepdims=True))
    ss = ((x - um) ** 2 * ok).sum(axis=axes_)
    return [(mean, none), (np.sqrt(ss / np.where(n > 1, n - 1, 1)), n < 2), (n, np.zeros_like(none))]


def case(t):
    import iris
    from iris.coords import AuxCoord, DimCoord
    from cis.data_io.gridded_data import GriddedData, GriddedDataList
    from iris.aux_factory import HybridHeightFactory, HybridPressureFactory
    r = t.rng
    hybrid = str(r.choice(['none', 'none', 'none', 'height', 'pressure', 'sigma']))
    kinds = ['latitude', 'longitude', 'time'] + (['model_level_number'] if hybrid != 'none' else [str(r.choice(['altitude', 'air_pressure']))])
    if hybrid == 'none':
        kinds = kinds[:3] if r.random() < .3 else kinds
        kinds = [str(k) for k in r.permutation(kinds)][:int(r.integers(1, len(kinds) + 1))]
    else:
        kinds = [k for k in kinds if k == 'model_level_number' or r.random() < .75]
        if len(kinds) == 1:
            kinds.append('latitude')
    kinds = [str(k) for k in r.permutation(kinds)]
    axes, dims = [], []
    for i, k in enumerate(kinds):
        n = int(r.integers(1, 5)) if k != 'longitude' else int(r.integers(2, 6))
        if k == 'model_level_number':
            ax = dict(kind=k, points=np.arange(n) + 1., bounds=None, direction=1)
            c = DimCoord(ax['points'], standard_name=k, units='1', var_name='mln')
        else:
            ax = gen.axis(r, k, n=n)
            b = r.random() < .6
            if not b and n > 1:
                t.mark('guessed_bounds')
            c = gen.dim_coord(ax, bounds=b)
            if k in ('latitude', 'longitude') and r.random() < .2:
                c.units = 'degrees_north' if k == 'latitude' else 'degrees_east'
        axes.append(ax)
        dims.append((c, i))
    shape = tuple(len(a['points']) for a in axes)
    ndim = len(shape)
    # what is collapsed
    req = [k for k in r.permutation(kinds).tolist() if r.random() < .5] or [kinds[0]]
    cdims = tuple(sorted(kinds.index(k) for k in req))
    kernel = str(r.choice(KERN, p=[.2, .12, .08, .08, .2, .1, .05, .03, .03, .03, .04, .04]))
    # auxiliary coordinates
    aux = []
    if r.random() < .5:
        d = int(r.integers(0, ndim))
        aux.append((AuxCoord(np.round(r.uniform(0, 50, shape[d]), 2), long_name='aux one', var_name='aux1', units='m'), (d,)))
    if ndim > 1 and r.random() < .6:
        dd = tuple(int(d) for d in r.permutation(ndim)[:int(r.integers(2, ndim + 1))])
        if r.random() < .7:
            dd = tuple(sorted(dd))
        aux.append((AuxCoord(np.round(r.uniform(0, 50, tuple(shape[d] for d in dd)), 2), long_name='aux two', var_name='aux2', units='K'), dd))
        if r.random() < .3:
            aux.append((AuxCoord(np.round(r.uniform(0, 50, tuple(shape[d] for d in dd)), 2), long_name='aux three', var_name='aux3', units='K'), dd))
    if r.random() < .3:
        aux.append((AuxCoord(3.5, long_name='scalar', var_name='scalar', units='m'), ()))
    factories = []
    lev = kinds.index('model_level_number') if hybrid != 'none' else None
    parts = {}
    if hybrid != 'none':
        n = shape[lev]
        sd = tuple(int(d) for d in range(ndim) if d != lev and (kinds[d] != 'time' or r.random() < .4))
        sd = sd or tuple(d for d in range(ndim) if d != lev)
        parts['delta'] = AuxCoord(np.cumsum(r.uniform(100, 900, n)), long_name='level_height' if hybrid == 'height' else 'level_pressure',
                                  units='m' if hybrid == 'height' else 'Pa') if hybrid != 'sigma' else None
        parts['sigma'] = AuxCoord(np.sort(r.uniform(.05, 1, n))[::-1].copy(), long_name='sigma', units='1')
        parts['surface'] = AuxCoord(np.round(r.uniform(0, 3000, tuple(shape[d] for d in sd)) + (0 if hybrid == 'height' else 90000.), 1),
                                    standard_name='surface_altitude' if hybrid == 'height' else 'surface_air_pressure',
                                    units='m' if hybrid == 'height' else 'Pa')
        for q, dd in (('delta', (lev,)), ('sigma', (lev,)), ('surface', sd)):
            if parts[q] is not None:
                aux.append((parts[q], dd))
    order = r.permutation(len(aux))
    aux = [aux[i] for i in order]
    nvar = int(r.choice([1, 1, 1, 2, 3]))
    lazy = r.random() < .25
    mk = str(r.choice(['plain', 'nomask', 'some', 'holes'], p=[.3, .15, .35, .2]))
    if kernel in ('median', 'gmean', 'hmean'):
        mk = 'plain'
    integer = r.random() < .15 and kernel not in ('gmean', 'hmean')
    arrays, vars_ = [], []
    bad = np.zeros(shape, bool)
    if mk == 'some':
        bad = r.random(shape) < .3
    elif mk == 'holes':
        bad = r.random(shape) < .2
        sl = [slice(None)] * ndim
        for d in range(ndim):
            if d not in cdims:
                sl[d] = int(r.integers(0, shape[d]))
        bad[tuple(sl)] = True
    for v in range(nvar):
        val = np.round(r.uniform(1, 50, shape), 2) if not integer else r.integers(-20, 50, shape)
        if kernel not in ('gmean', 'hmean') and r.random() < .3 and not integer:
            val = val - 25
        b = bad if v == 0 or mk == 'nomask' else bad & (r.random(shape) < .8)
        a = np.ma.masked_array(val, mask=b) if mk != 'plain' else val
        if mk == 'nomask':
            a = np.ma.array(val)
        arrays.append(np.ma.array(val, mask=b))
        src = a
        if lazy:
            import dask.array as da
            src = da.from_array(a.copy(), chunks=2, asarray=False)
        cub = GriddedData(src, var_name='v%d' % v, long_name='long v%d' % v, units='K', standard_name='air_temperature' if v == 0 else None,
                          dim_coords_and_dims=[(c.copy(), i) for c, i in dims], aux_coords_and_dims=[])
        for c, dd in aux:
            cub.add_aux_coord(c.copy(), dd)
        if hybrid == 'height':
            cub.add_aux_factory(HybridHeightFactory(cub.coord('level_height'), cub.coord('sigma'), cub.coord('surface_altitude')))
        elif hybrid in ('pressure', 'sigma'):
            cub.add_aux_factory(HybridPressureFactory(cub.coord('level_pressure') if hybrid == 'pressure' else None, cub.coord('sigma'),
                                                      cub.coord('surface_air_pressure')))
        vars_.append(cub)
    if lazy:
        t.mark('lazy')
    t.mark('masked_input', bad.any())
    data = vars_[0] if nvar == 1 and r.random() < .7 else GriddedDataList(vars_)
    names = []
    for k in req:
        style = r.random()
        opts = NAME[k]
        if hybrid != 'none':
            opts = opts[:1]
        if style < .15:
            names.append(vars_[0].coord(standard_name=k, dim_coords=True))
        else:
            names.append(str(r.choice(opts)))
    t.describe('dims %s %s collapse %s (%s) kernel=%s mask=%s lazy=%s int=%s hybrid=%s nvar=%d aux=%s' % (
        kinds, shape, req, [n if isinstance(n, str) else 'obj' for n in names], kernel, mk, lazy, integer, hybrid, nvar,
        [(c.name(), d) for c, d in aux]))
    if r.random() < .05:
        what = str(r.choice(['coord', 'kernel']))
        try:
            if what == 'coord':
                data.collapsed(names + ['no_such_coordinate'], how='mean')
            else:
                data.collapsed(names, how='no_such_kernel')
            t.fail('unknown-' + what + '-accepted', t.desc)
        except Exception:
            t.mark('refusals')
        return
    how = {'obj_mean': iris.analysis.MEAN, 'obj_max': iris.analysis.MAX}.get(kernel, kernel)
    if kernel == '' and r.random() < .5:
        how = None
    weighted = kernel in ('mean', 'obj_mean', 'RMS', 'moments', '') and 'latitude' in req
    arg = names if len(names) > 1 or r.random() < .5 else names[0]
    boundless = []
    for (c, i), k in zip(dims, kinds):
        if not c.has_bounds() and len(c.points) < 2 and k in ('latitude', 'longitude'):
            boundless.append(k)
    try:
        out = data.collapsed(arg, how=how)
    except ValueError as e:
        # iris refuses area weights without longitude or without bounds
        if 'latitude' in req and kernel in ('mean', 'obj_mean', 'RMS', 'moments', '', 'sum') and ('longitude' not in kinds or boundless):
            t.mark('weights_refused')
            return
        raise
    out = gen.as_list(out)
    per = 3 if kernel in ('moments', '') else 1
    if not t.check(len(out) == nvar * per, 'output-count', '%s: %d' % (t.desc, len(out))):
        return
    w = None
    cb = []
    for c, i in dims:
        c = c.copy()
        if not c.has_bounds() and len(c.points) > 1:
            c.guess_bounds()
        cb.append(c)
    if 'latitude' in req and 'longitude' in kinds:
        la, lo = cb[kinds.index('latitude')], cb[kinds.index('longitude')]
        if la.has_bounds() and lo.has_bounds():
            s = np.sin(np.radians(la.bounds))
            A = np.abs(s[:, 1] - s[:, 0])
            B = np.abs(lo.bounds[:, 1] - lo.bounds[:, 0])
            sh = [1] * ndim
            sh[kinds.index('latitude')] = len(A)
            w = A.reshape(sh)
            sh = [1] * ndim
            sh[kinds.index('longitude')] = len(B)
            w = np.broadcast_to(w * B.reshape(sh), shape)
    if weighted:
        t.mark('weighted')
        t.check(w is not None, 'weighted-without-areas', t.desc)
    remain = [i for i in range(ndim) if i not in cdims]
    rshape = tuple(shape[i] for i in remain)
    newdim = {d: j for j, d in enumerate(remain)}
    for v in range(nvar):
        refs = reference(kernel, arrays[v], cdims, w if weighted else None)
        for q in range(per):
            o = out[v * per + q]
            if not t.check(o.shape == rshape, 'output-shape', lambda: '%s: %s want %s' % (t.desc, o.shape, rshape)):
                return
            got = gen.nanmask(o.data)
            gm = np.ma.getmaskarray(got)
            val, miss = refs[q]
            t.mark('cells_judged', max(1, int(np.prod(rshape))))
            t.mark('all_missing_cells', int(np.sum(miss)))
            t.check(np.array_equal(gm, miss), 'wrong-missing', lambda: '%s output %d: mask %s want %s' % (t.desc, q, gm.tolist(), np.asarray(miss).tolist()))
            both = ~gm & ~np.asarray(miss)
            x, y = np.asarray(got.data, float)[both], np.asarray(val, float)[both]
            okv = np.allclose(x, y, rtol=1e-7, atol=1e-7)
            if not okv and kernel == 'sum' and w is not None:
                a = arrays[v]
                ws = (np.where(np.ma.getmaskarray(a), 0, np.asarray(a.data, float)) * w).sum(axis=cdims)
                f = np.radians(1) * 6367470.0 ** 2
                if np.allclose(x, np.asarray(ws * f)[both], rtol=1e-6, atol=1e-6 * f):
                    t.fail('sum-area-weighted', t.desc)
                    continue
            t.check(okv, 'wrong-statistic', lambda: '%s output %d: %s want %s' % (t.desc, q, x[:6], y[:6]))
            suffix = ['', '_std_dev', '_num_points'][q]
            t.check(o.var_name == 'v%d%s' % (v, suffix), 'output-name', lambda: '%s: %s' % (t.desc, o.var_name))
            t.check(str(o.units) == 'K' if q < 2 else str(o.units) in ('unknown', '1', 'no_unit'), 'output-units', lambda: '%s: %s' % (t.desc, o.units))
            coords(t, o, dims, cb, kinds, cdims, remain, newdim, aux, parts, hybrid, lev, req, shape)
    t.seen(tuple(kinds), tuple(sorted(req)), tuple(n if isinstance(n, str) else 'obj' for n in names), kernel, mk, lazy, hybrid, nvar,
           tuple(sorted((c.name(), d) for c, d in aux)))


def coords(t, o, dims, cb, kinds, cdims, remain, newdim, aux, parts, hybrid, lev, req, shape):
    for (c, i), b, k in zip(dims, cb, kinds):
        oc = o.coords(standard_name=k)
        oc = [x for x in oc if x.var_name == c.var_name]
        if not t.check(len(oc) == 1, 'dimension-coordinate-lost', lambda: '%s: %s' % (t.desc, k)):
            continue
        oc = oc[0]
        if i in cdims:
            allv = b.bounds if b.has_bounds() else b.points
            t.check(oc.shape == (1,) and o.coord_dims(oc) == () and (b.nbounds == 0 and len(b.points) == 1 and not oc.has_bounds() or
                    np.allclose(np.sort(oc.bounds.ravel()), [allv.min(), allv.max()], rtol=1e-9)),
                    'collapsed-coordinate', lambda: '%s: %s' % (t.desc, oc))
        else:
            t.check(o.coord_dims(oc) == (newdim[i],) and np.array_equal(oc.points, b.points) and
                    (not oc.has_bounds() or np.allclose(oc.bounds, b.bounds)), 'retained-coordinate', lambda: '%s: %s' % (t.desc, oc))
            t.check(oc.has_bounds() or not c.has_bounds(), 'bounds-lost', lambda: '%s: %s' % (t.desc, k))
    newpts = {}
    for c, dd in aux:
        oc = o.coords(c.name())
        oc = [x for x in oc if x not in o.derived_coords]
        if not t.check(len(oc) == 1, 'auxiliary-coordinate-lost', lambda: '%s: %s' % (t.desc, c.name())):
            continue
        oc = oc[0]
        hit = [d for d in dd if d in cdims]
        if hit and len(hit) < len(dd):
            t.mark('aux_partial')
            ax = tuple(i for i, d in enumerate(dd) if d in cdims)
            want, wd = c.points.mean(axis=ax), tuple(newdim[d] for d in dd if d not in cdims)
            t.check(o.coord_dims(oc) == wd and oc.points.shape == want.shape and np.allclose(oc.points, want, rtol=1e-9), 'partial-auxiliary-coordinate', lambda:
                    '%s: %s dims %s points %s want %s %s' % (t.desc, c.name(), o.coord_dims(oc), oc.points, wd, want))
        elif hit:
            mn, mx = c.points.min(), c.points.max()
            t.check(oc.shape == (1,) and (np.allclose(oc.points, (mn + mx) / 2.) if oc.has_bounds() else mn == mx and np.allclose(oc.points, mn)),
                    'collapsed-auxiliary-coordinate', lambda: '%s: %s' % (t.desc, oc))
        else:
            wd = tuple(newdim[d] for d in dd)
            t.check(o.coord_dims(oc) == wd and np.allclose(oc.points, c.points, rtol=1e-12), 'retained-auxiliary-coordinate', lambda: '%s: %s' % (t.desc, oc))
        newpts[c.name()] = (oc.points, o.coord_dims(oc))
    if hybrid != 'none':
        name = 'altitude' if hybrid == 'height' else 'air_pressure'
        dc = o.coords(name)
        if not t.check(len(dc) == 1, 'derived-coordinate-lost', lambda: '%s: %s' % (t.desc, [x.name() for x in o.coords()])):
            return
        dc = dc[0]
        full = o.shape

        def spread(nm):
            p, d = newpts[nm]
            if d == ():
                return p.reshape(()) if p.size == 1 else p
            sh = [1] * len(full)
            for j in d:
                sh[j] = full[j]
            return np.transpose(p, np.argsort(d)).reshape(sh)
        try:
            sur = spread('surface_altitude' if hybrid == 'height' else 'surface_air_pressure')
            sig = spread('sigma')
            delt = 0 if parts['delta'] is None else spread('level_height' if hybrid == 'height' else 'level_pressure')
        except KeyError:
            return
        want = np.broadcast_to(delt + sig * sur, full)
        dd = o.coord_dims(dc)
        sh = [1] * len(full)
        for j in dd:
            sh[j] = full[j]
        got = np.broadcast_to(np.transpose(dc.points, np.argsort(dd)).reshape(sh) if dd else dc.points.reshape(()), full)
        t.mark('derived_checked')
        t.check(np.allclose(got, want, rtol=1e-6), 'derived-coordinate', lambda: '%s: %s want %s' % (t.desc, got.ravel()[:5], want.ravel()[:5]))
