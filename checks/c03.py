"""C03: kernels return the documented statistic of exactly the values they get; names, units and missing data."""
import numpy as np
from vmon import gen

CASES = {'quick': 1920, 'thorough': 8000}
RULE = ('one observation per distinct (route, kernel, variable count, mask class, dtype, user names?, fill value?, missing '
        'sample class, group-size profile) whose every output cell was compared with an independent statistic')
REQUIRED = {'cells_judged': 3000, 'empty_cells': 100, 'single_value_cells': 100, 'outputs_named': 200,
            'user_names': 20, 'kernel_calls': 200, 'collapsed_cells': 300, 'default_kernel': 10}
ASSUMPTIONS = ['NaN counts as missing where CIS treats it so (box collocation); binning is given masked data only',
               'standard deviation of a single value is undefined and therefore missing',
               'values are multiples of 1/4 below 2^12 so reference statistics are exact to rounding']
KERNELS = ['mean', 'stddev', 'min', 'max', 'sum', 'moments']


def stats(v, kern):
    """Reference: tuple of outputs (None = missing)."""
    v = [float(x) for x in v]
    n = len(v)
    if n == 0:
        return (None,) * (3 if kern == 'moments' else 1)
    m = sum(v) / n
    sd = None if n == 1 else (sum((x - m) ** 2 for x in v) / (n - 1)) ** 0.5
    one = dict(mean=m, stddev=sd, min=min(v), max=max(v), sum=sum(v))
    return (m, sd, float(n)) if kern == 'moments' else (one[kern],)


def make_values(r, n, nan):
    dt = r.choice(['f8', 'f4', 'i4', 'i2', 'nan' if nan else 'f8'])
    v = r.integers(-4000, 4000, n) / 4.0
    if r.random() < 0.2:
        v = np.zeros(n) + v[0] if n else v
    if dt in ('f4', 'i4', 'i2'):
        v = v.astype(dt)
    valid = np.ones(n, bool)
    kind = r.choice(['plain', 'nomask', 'some', 'most', 'all'], p=[.3, .1, .35, .2, .05])
    out = v
    if kind != 'plain':
        bad = r.random(n) < {'nomask': 0, 'some': .3, 'most': .85, 'all': 1.1}[kind]
        valid &= ~bad
        junk = v.copy()
        junk[bad] = r.choice([0, 1e3, -9999])
        out = np.ma.masked_array(junk, mask=bad)
    if dt == 'nan':
        bad = r.random(n) < 0.2
        valid &= ~bad
        if isinstance(out, np.ma.MaskedArray):
            out = out.copy()
            out.data[bad] = np.nan
        else:
            out = np.where(bad, np.nan, out)
    return out, valid, str(dt), str(kind)


def expected_details(kern, name, long_name, std, units):
    if kern == 'moments':
        return [(name, long_name, std, units),
                (name + '_std_dev', 'Corrected sample standard deviation of %s' % long_name, None, units),
                (name + '_num_points', 'Number of points used to calculate the mean of %s' % long_name, None, '')]
    return [(name, long_name, std, units)]


def unit_equal(a, b):
    from cf_units import Unit
    norm = lambda u: 'none' if str(u) in ('', 'unknown', 'no_unit', 'None') else Unit(str(u))
    return norm(a) == norm(b)


def case(t):
    k = t.index % 4
    if k == 0:
        grouped(t, 'ungridded')
    elif k == 1:
        grouped(t, 'bin')
    elif k == 2:
        grouped(t, 'aggregate')
    else:
        direct(t)
        collapse(t)


def grouped(t, route):
    r = t.rng
    # samples on a coarse lattice, each with its own little cluster of data points: the grouping itself is beyond doubt
    nla, nlo = int(r.integers(1, 5)), int(r.integers(1, 5))
    if route == 'bin':
        nla, nlo = max(nla, 2), max(nlo, 2)
    la0, lo0 = float(r.choice([-60., -20., 0.])), float(r.choice([-170., 5., 0.]))
    cla, clo = la0 + 10 * np.arange(nla) + 5, lo0 + 10 * np.arange(nlo) + 5
    profile = r.choice(['sparse', 'ones', 'full'])
    per = r.integers(*{'sparse': (0, 4), 'ones': (0, 2), 'full': (1, 25)}[str(profile)], size=(nla, nlo))
    if per.sum() == 0:
        per[0, 0] = 1
    gi = np.repeat(np.arange(nla * nlo), per.ravel())
    r.shuffle(gi)
    n = len(gi)
    pla, plo = cla[gi // nlo] + r.uniform(-.1, .1, n), clo[gi % nlo] + r.uniform(-.1, .1, n)
    if route != 'ungridded' and n > 1 and r.random() < 0.5:
        # time on the data too, so that the aggregator/binner has something to collapse or ignore
        tm = gen.days(__import__('datetime').datetime(2010, 1, 1)) + r.uniform(0, 1, n)
    else:
        tm = None
    nvar = int(r.choice([1, 1, 2, 3]))
    vs, valids, kinds = [], [], []
    for i in range(nvar):
        v, ok, dt, kind = make_values(r, n, route == 'ungridded')
        c = dict(latitude=pla.copy(), longitude=plo.copy())
        if tm is not None:
            c['time'] = tm.copy()
        std = [None, 'air_temperature', 'precipitation_flux'][i] if r.random() < 0.5 else None
        units = str(r.choice(['K', 'kg m-2', '1', 'g']))
        kw = {} if std is None else dict(standard_name=std)
        d = gen.ungridded(c, v, 'v%d' % i, units, **kw)
        vs.append((d, std, units))
        valids.append(ok)
        kinds.append((dt, kind))
    kern = str(r.choice(KERNELS))
    user = {}
    if nvar == 1 and r.random() < 0.4 and route != 'aggregate':
        user = dict(var_name='mine', var_long_name='my long name', var_units=str(r.choice(['m', 'W m-2'])))
        for k in list(user):
            if r.random() < 0.25:
                del user[k]
        if user:
            t.mark('user_names')
    fill = None
    if route != 'aggregate' and r.random() < 0.4:
        fill = float(r.choice([-999., 0., 1e20]))
    kw = dict(user)
    if fill is not None:
        kw['fill_value'] = fill
    from cis.data_io.ungridded_data import UngriddedDataList
    data = vs[0][0] if nvar == 1 else UngriddedDataList([d for d, _, _ in vs])
    t.describe('%s %s nvar=%d n=%d %s kinds=%s fill=%s user=%s' % (route, kern, nvar, n, profile, kinds, fill, sorted(user)))
    default = kern == 'moments' and r.random() < 0.4
    if default:
        t.mark('default_kernel')
    skip = np.zeros(nla * nlo, bool)
    if route == 'ungridded':
        order = r.permutation(nla * nlo)
        sla, slo = cla[order // nlo], clo[order % nlo]
        miss = r.random(len(order)) < 0.3
        smode = r.choice(['plain', 'missing', 'keep', 'coords'])
        sv = np.ma.masked_array(np.zeros(len(order)), mask=miss) if smode in ('missing', 'keep') else np.zeros(len(order))
        sample = gen.ungridded(dict(latitude=sla, longitude=slo), sv, 's')
        if smode == 'coords':
            from cis.data_io.ungridded_data import UngriddedCoordinates
            sample = UngriddedCoordinates(sample.coords())
        if smode == 'keep':
            kw['missing_data_for_missing_sample'] = False
        if smode == 'missing':
            skip[order[miss]] = True
            if r.random() < 0.5:
                kw['missing_data_for_missing_sample'] = True
        out = data.collocated_onto(sample, how='box', kernel=None if default else kern, h_sep=200, **kw)
        pick = order
        shape = (len(order),)
    elif route == 'bin':
        axes = [dict(kind='latitude', points=cla, bounds=np.stack([cla - 5, cla + 5], 1)),
                dict(kind='longitude', points=clo, bounds=np.stack([clo - 5, clo + 5], 1))]
        swap = r.random() < 0.3
        miss = r.random((nla, nlo)) < 0.3
        smode = r.choice(['plain', 'missing', 'keep'])
        sv = np.ma.masked_array(np.zeros((nla, nlo)), mask=miss) if smode != 'plain' else np.zeros((nla, nlo))
        sample = gen.cube(axes[::-1] if swap else axes, sv.T if swap else sv, bounds=bool(r.random() < 0.7))
        if smode == 'keep':
            kw['missing_data_for_missing_sample'] = False
        if smode == 'missing':
            skip = miss.ravel().copy()
            kw['missing_data_for_missing_sample'] = True
        out = data.collocated_onto(sample, how='bin', kernel=None if default else kern, **kw)
        pick = np.arange(nla * nlo).reshape(nla, nlo)
        pick = (pick.T if swap else pick)
        shape = pick.shape
        pick = pick.ravel()
    else:
        grid = dict(latitude=[la0, la0 + 10 * nla, 10], longitude=[lo0, lo0 + 10 * nlo, 10])
        out = data.aggregate(how='moments' if default else kern, **grid)
        smode = 'none'
        # one dimension for each coordinate of the data, in the order of those
        names = [c.standard_name for c in vs[0][0].coords()]
        pick = np.arange(nla * nlo).reshape(nla, nlo)
        if names.index('longitude') < names.index('latitude'):
            pick = pick.T
        shape = tuple({'latitude': nla, 'longitude': nlo}.get(k, 1) for k in names)
        pick = pick.ravel()
    outs = gen.as_list(out)
    wantdet = []
    for i, (d, std, units) in enumerate(vs):
        for j, det in enumerate(expected_details(kern, user.get('var_name') or 'v%d' % i,
                                                 user.get('var_long_name') or 'v%d long' % i, std,
                                                 user.get('var_units') or units)):
            wantdet.append((i, j, det))
    if not t.check(len(outs) == len(wantdet), 'output-count', lambda: '%d outputs for %d' % (len(outs), len(wantdet))):
        return
    for o, (i, j, (name, lname, std, units)) in zip(outs, wantdet):
        t.mark('outputs_named')
        t.check(o.var_name == name, 'output-name', lambda: '%r want %r' % (o.var_name, name))
        t.check(o.long_name == lname, 'output-long-name', lambda: '%r want %r' % (o.long_name, lname))
        t.check((o.standard_name or None) == std, 'output-standard-name', lambda: '%r want %r' % (o.standard_name, std))
        t.check(unit_equal(o.units, units), 'output-units', lambda: '%r want %r for %s' % (o.units, units, name))
        got = np.ma.asarray(o.data)
        if not t.check(got.shape == shape, 'output-shape', lambda: '%s want %s' % (got.shape, shape)):
            continue
        if fill is not None:
            t.check(float(got.fill_value) == np.asarray(fill, got.dtype), 'fill-value', lambda: '%r want %r' % (got.fill_value, fill))
            if route == 'ungridded':
                t.check(float(o.metadata.missing_value) == fill, 'missing-value-metadata', lambda: repr(o.metadata.missing_value))
        gm, gd = np.ma.getmaskarray(got).ravel(), np.asarray(got.data).ravel()
        allv = np.ma.asarray(vs[i][0].data)
        for c, g in enumerate(pick):
            t.mark('cells_judged')
            sel = (gi == g) & valids[i]
            vals = np.asarray(allv.data, float)[sel]
            want = None if skip[g] else stats(vals, kern)[j]
            t.mark({0: 'empty_cells', 1: 'single_value_cells'}.get(len(vals), 'many_value_cells'))
            where = lambda: '%s output %s cell %d (%d values, skip=%s): got %r masked=%s want %r' % (
                t.desc, name, c, len(vals), skip[g], gd[c], gm[c], want)
            if want is None:
                t.check(gm[c], 'value-where-missing', where)
            elif t.check(not gm[c], 'missing-where-value', where):
                t.check(abs(gd[c] - want) <= 1e-6 * max(1, np.abs(vals).max()), 'statistic-wrong', where)
    t.seen(route, kern, nvar, tuple(kinds), bool(user), fill is not None, str(smode), str(profile), default, tm is not None)


def direct(t):
    """Kernel objects called as a plug-in author would."""
    import pandas as pd
    from cis.collocation.col_framework import get_kernel
    r = t.rng
    for kern in KERNELS:
        k = get_kernel(kern)()
        for rep in range(3):
            n = int(r.choice([0, 1, 2, 3, 17, 500]))
            v = r.integers(-4000, 4000, n) / 4.0 + float(r.choice([0, 1e6]))
            df = pd.DataFrame(dict(latitude=np.zeros(n), vals=v), index=np.arange(n) + int(r.integers(0, 5)))
            t.mark('kernel_calls')
            try:
                got = k.get_value(None, df)
            except ValueError:
                t.check(n == 0, 'kernel-refused-values', '%s n=%d' % (kern, n))
                continue
            if not t.check(n > 0, 'kernel-accepted-nothing', kern):
                continue
            for how, g in (('frame', got), ('array', k.get_value_for_data_only(v.copy())),
                           ('masked', k.get_value_for_data_only(np.ma.masked_array(v, mask=np.zeros(n, bool))))):
                g = g if isinstance(g, tuple) else (g,)
                w = stats(v, kern)
                t.check(len(g) == len(w) == k.return_size, 'kernel-return-size', kern)
                for a, b in zip(g, w):
                    bad = a is np.ma.masked or not np.isfinite(a)
                    t.check(bad if b is None else (not bad and abs(a - b) <= 1e-6 * max(1, abs(b)) + 1e-9), 'kernel-value',
                            lambda: '%s/%s n=%d: %r want %r' % (kern, how, n, a, b))
        det = k.get_variable_details('nm', 'lng', 'air_temperature', 'K')
        t.check([tuple(d) for d in det] == expected_details(kern, 'nm', 'lng', 'air_temperature', 'K'), 'kernel-details',
                lambda: repr(det))


def collapse(t):
    """Gridded aggregation kernels, over axes that carry no area weights."""
    from cis.data_io.gridded_data import GriddedDataList
    r = t.rng
    kinds = list(r.permutation(['latitude', 'time', 'altitude'] if r.random() < 0.5 else ['altitude', 'time']))
    axes = [gen.axis(r, str(k)) for k in kinds]
    shape = tuple(len(a['points']) for a in axes)
    kern = str(r.choice(['sum', 'median', 'gmean', 'hmean', 'RMS', 'mean', 'min', 'max', 'moments']))
    over = [str(k) for k in r.permutation([k for k in kinds if k != 'latitude'])][:int(r.integers(1, 3))]
    nvar = int(r.choice([1, 1, 2]))
    cubes, kindsv = [], []
    for i in range(nvar):
        v = r.integers(1, 4000, shape) / 4.0
        if kern not in ('gmean', 'hmean'):
            v = v - 500
        mk = r.choice(['plain', 'nomask', 'some', 'most'])
        if mk != 'plain':
            v = np.ma.masked_array(v, mask=r.random(shape) < {'nomask': 0, 'some': .3, 'most': .85}[str(mk)])
        kindsv.append(str(mk))
        std = 'air_temperature' if r.random() < 0.4 else None
        cubes.append(gen.cube(axes, v, 'g%d' % i, 'K', standard_name=std))
    t.describe((t.desc or '') + 'collapse %s over %s of %s %s nvar=%d %s' % (kern, over, kinds, shape, nvar, kindsv))
    data = cubes[0] if nvar == 1 else GriddedDataList(cubes)
    before = [c.copy() for c in cubes]
    outs = gen.as_list(data.collapsed(over, how=kern))
    nper = 3 if kern == 'moments' else 1
    if not t.check(len(outs) == nper * nvar, 'collapse-output-count', lambda: '%d %s' % (len(outs), t.desc)):
        return
    axn = tuple(kinds.index(k) for k in over)
    keep = [a for a in range(len(kinds)) if a not in axn]
    for i, src in enumerate(before):
        v = np.ma.asarray(src.data)
        m = np.ma.getmaskarray(v)
        vt = np.moveaxis(np.asarray(v.data), axn, range(-len(axn), 0)).reshape([shape[a] for a in keep] + [-1])
        mt = np.moveaxis(m, axn, range(-len(axn), 0)).reshape(vt.shape)
        for j in range(nper):
            o = outs[i * nper + j]
            det = expected_details(kern, 'g%d' % i, 'g%d long' % i, src.standard_name, 'K')[j]
            t.check(o.var_name == det[0], 'collapse-name', lambda: '%r %r' % (o.var_name, det))
            t.check(o.long_name == det[1], 'collapse-long-name', lambda: '%r %r' % (o.long_name, det))
            t.check(o.standard_name == det[2], 'collapse-standard-name', lambda: '%r %r' % (o.standard_name, det))
            t.check(unit_equal(o.units, det[3]), 'collapse-units', lambda: '%r %r' % (o.units, det))
            got = np.ma.asarray(o.data)
            if not t.check(got.shape == vt.shape[:-1], 'collapse-shape', lambda: '%s %s' % (got.shape, vt.shape)):
                continue
            gm = np.ma.getmaskarray(got)
            for ix in np.ndindex(got.shape):
                t.mark('collapsed_cells')
                x = vt[ix][~mt[ix]]
                n = len(x)
                if n == 0:
                    want = 0.0 if (kern == 'moments' and j == 2) else None
                elif kern == 'moments':
                    want = stats(x, 'moments')[j]
                else:
                    want = dict(sum=np.sum, median=np.median, mean=np.mean, min=np.min, max=np.max,
                                RMS=lambda y: np.sqrt(np.mean(y ** 2)), gmean=lambda y: np.exp(np.mean(np.log(y))),
                                hmean=lambda y: len(y) / np.sum(1. / y))[kern](x)
                g = got[ix]
                missing = bool(gm[ix]) or not np.isfinite(float(got.data[ix]))
                where = lambda: '%s out %s cell %s n=%d got %r want %r' % (t.desc, det[0], ix, n, g, want)
                if want is None:
                    t.check(missing, 'collapse-value-where-missing', where)
                elif t.check(not missing, 'collapse-missing-where-value', where):
                    t.check(abs(float(g) - want) <= 1e-6 * max(1, abs(want)), 'collapse-statistic', where)
    t.seen('collapse', kern, tuple(kinds), tuple(over), nvar, tuple(kindsv))
