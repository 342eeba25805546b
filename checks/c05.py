"""C05: gridded data onto another grid, every output cell compared with an independent per-cell multilinear / nearest
reference evaluated at that cell's own coordinates."""
import itertools
import numpy as np
from checks.c04 import bracket
from vmon import gen

CASES = {'quick': 1920, 'thorough': 8000}
RULE = ('one observation per distinct (data dimension order, sample dimension order, directions, circular?, longitude '
        'ranges, method, extrapolate?, mask classes, list?) whose every output cell was compared with the reference')
REQUIRED = {'cells_judged': 20000, 'cells_outside': 1000, 'masked_neighbour': 500, 'missing_sample_cells': 300,
            'extra_data_dims': 50, 'extra_sample_dims': 50, 'extrapolated_cells': 300, 'seam_cells': 200,
            'scalar_sample_coords': 100, 'scalar_data_coords': 50}
ASSUMPTIONS = ['a masked grid value with exactly zero weight may or may not make the result missing',
               'points within 1e-9 of a grid edge or of a nearest-neighbour tie may go either way',
               'in the gap between the last and first longitude of a global grid not marked circular the result may be '
               'missing or interpolated', 'every data dimension has at least two points']


def sample_axis(r, dax):
    k = dax['kind']
    p = np.sort(dax['points'])
    n = int(r.integers(1, 6))
    lo, hi = p[0], p[-1]
    span = hi - lo
    x = r.uniform(lo - 0.15 * span, hi + 0.15 * span, n)
    u = r.random(n)
    x = np.where(u < 0.25, r.choice(p, n), x)
    if k == 'longitude':
        style = str(r.choice(['near', 'global0', 'global180', 'shift', 'minus']))
        if style in ('global0', 'global180'):
            n = int(r.integers(2, 9))
            x = np.arange(n) * 360. / n + (0 if style == 'global0' else -180) + float(r.choice([0, 90. / n]))
        elif style in ('shift', 'minus'):
            x = x + (360. if style == 'shift' else -360.)
    elif k == 'latitude':
        x = np.clip(x, -90, 90)
    x = np.unique(np.round(x * 256) / 256)
    if k == 'air_pressure':
        x = np.maximum(x, 1)
        x = np.unique(x)
    if k == 'longitude' and x[-1] - x[0] > 360:
        x = x[x <= x[0] + 360]
    d = -1 if r.random() < 0.35 else 1
    return dict(kind=k, points=x[::d].copy(), bounds=None, direction=d)


def case(t):
    from cis.collocation import col_implementations as ci
    from cis.collocation.col import collocate
    from cis.data_io.gridded_data import GriddedData, GriddedDataList
    from iris.coords import AuxCoord
    r = t.rng
    kinds = [str(k) for k in r.permutation(gen.STD)]
    nd = int(r.integers(1, 5))
    dk = kinds[:nd]
    if r.random() < 0.7:
        dk = [k for k in dk if k not in ('latitude', 'longitude')][:2] + ['latitude', 'longitude']
    dk = [str(k) for k in r.permutation(dk)]
    daxes = [gen.axis(r, k) for k in dk]
    circ = {}
    for a in daxes:
        a['circular'] = False
        if a['kind'] == 'longitude' and a['conv'] in ('glob0', 'glob180') and r.random() < 0.7:
            a['circular'] = True
        if a['kind'] == 'longitude' and a['conv'].startswith('reg') and r.random() < 0.3:
            # a region across the edge of the usual ranges
            w = np.ptp(a['points'])
            a['points'] = a['points'] - a['points'].min() + float(r.choice([-20., 350., 170.]))
            a['bounds'] = None
    shared = [k for k in dk if r.random() < 0.8] or dk[:1]
    extra = [k for k in gen.STD if k not in dk and r.random() < 0.15]
    sk = [str(k) for k in r.permutation(shared + extra)]
    saxes = []
    for k in sk:
        if k in shared:
            saxes.append(sample_axis(r, next(a for a in daxes if a['kind'] == k)))
        else:
            saxes.append(gen.axis(r, k, n=2))
    shape = tuple(len(a['points']) for a in daxes)
    sshape = tuple(len(a['points']) for a in saxes)
    method = str(r.choice(['lin', 'nn']))
    extrap = bool(r.random() < 0.25)
    nvar = int(r.choice([1, 1, 2]))
    vals = []
    for v in range(nvar):
        x = gen.values(r, int(np.prod(shape))).reshape(shape)
        if method == 'nn' and r.random() < 0.2:
            x = (x * 4).astype('i4')
        vals.append(x)
    def build(v):
        dims = [(gen.dim_coord(a, bounds=a['bounds'] is not None, circular=a['circular'] if a['kind'] == 'longitude' else None), i)
                for i, a in enumerate(daxes)]
        return GriddedData(vals[v].copy(), var_name='g%d' % v, long_name='g%d long' % v, units='K', dim_coords_and_dims=dims)
    cubes = [build(v) for v in range(nvar)]
    scalar = r.random() < 0.2
    if scalar:
        for c in cubes:
            c.add_aux_coord(AuxCoord(7.0, long_name='forecast run', units='1'))
    sm = r.random(sshape) < 0.25
    smode = str(r.choice(['plain', 'masked', 'keep']))
    sv = np.ma.masked_array(np.zeros(sshape), mask=sm) if smode != 'plain' else np.zeros(sshape)
    sample = GriddedData(sv, var_name='s', units='1', dim_coords_and_dims=[(gen.dim_coord(a, bounds=False), i) for i, a in enumerate(saxes)])
    if r.random() < 0.15:
        sample.add_aux_coord(AuxCoord(2.0, long_name='height of instrument', units='m'))
    sq = [k for k in shared if len(saxes[sk.index(k)]['points']) == 1 and len(sk) > 1 and r.random() < .5]
    if len(sq) == len(sk):
        sq = sq[:-1]
    if sq:          # the sample is a slice of a grid: some of its coordinates are scalars
        t.mark('scalar_sample_coords')
        sample = sample[tuple(0 if k in sq else slice(None) for k in sk)]
    lone = [k for k in extra if r.random() < .5]
    for k in lone:  # the data is a slice of a grid
        t.mark('scalar_data_coords')
        for c in cubes:
            c.add_aux_coord(AuxCoord(5.0, standard_name=k, units=gen.std_time_unit() if k == 'time' else gen.UNITS.get(k, '1')))
    lons = [(a['points'].min(), a['points'].max(), a.get('circular')) for a in daxes + saxes if a['kind'] == 'longitude']
    t.describe('data %s %s %s sample %s %s %s lon=%s %s extrap=%s nvar=%d smode=%s scalars %s %s' % (
        dk, shape, [a['direction'] for a in daxes], sk, sshape, [a['direction'] for a in saxes], lons, method, extrap, nvar, smode, sq, lone))
    data = cubes[0] if nvar == 1 else GriddedDataList(cubes)
    miss = smode != 'keep'
    if r.random() < 0.3:
        col = ci.GriddedCollocator(missing_data_for_missing_sample=miss, extrapolate=extrap)
        out = collocate(data, sample, col, None, ci.gridded_gridded_li() if method == 'lin' else ci.gridded_gridded_nn())
    else:
        kw = dict(extrapolate=extrap) if extrap or r.random() < 0.3 else {}
        out = data.collocated_onto(sample, how=method, missing_data_for_missing_sample=miss, **kw)
    out = gen.as_list(out)
    if not t.check(len(out) == nvar, 'output-count', t.desc):
        return
    order = [k for k in sk if k in shared] + [k for k in dk if k not in shared]
    if len(order) > len(shared):
        t.mark('extra_data_dims')
    if extra:
        t.mark('extra_sample_dims')
    judged_mask = smode == 'masked' and not extra
    # bracket per output coordinate value
    look = {}
    for k in shared:
        da = next(a for a in daxes if a['kind'] == k)
        sa = next(a for a in saxes if a['kind'] == k)
        for j, x in enumerate(sa['points']):
            b = bracket(da['points'], float(x), method, extrap, da['circular'], k == 'longitude')
            gap = False
            if k == 'longitude' and not da['circular'] and b[1]:
                p = np.sort(da['points'])
                gap = 360 - (p[-1] - p[0]) <= np.diff(p).max() * 1.01
            if k == 'longitude' and da['circular'] and not (da['points'].min() <= x <= da['points'].max()):
                t.mark('seam_cells')
            look[k, j] = b + (gap,)
    for v, o in enumerate(out):
        names = [c.standard_name for c in o.coords(dim_coords=True)]
        if sq:
            # the scalar coordinates of the sample may be scalars or dimensions of length one of the output
            t.check([k for k in names if k not in sq] == [k for k in order if k not in sq] and
                    all(np.array_equal(o.coord(standard_name=k).points, saxes[sk.index(k)]['points']) for k in sq),
                    'output-layout', lambda: '%s %s want %s; %s' % (names, o.shape, order, t.desc))
            vol = np.ma.asarray(o.data)[tuple(slice(None) if k in names else None for k in names + [k for k in sq if k not in names])]
            names = names + [k for k in sq if k not in names]
            vol = vol.transpose([names.index(k) for k in order])
            names = order
        else:
            vol = np.ma.asarray(o.data)
        want = tuple(len(next(a for a in (saxes if k in shared else daxes) if a['kind'] == k)['points']) for k in order)
        if not t.check(names == order and vol.shape == want, 'output-layout', lambda: '%s %s want %s %s; %s' % (names, o.shape, order, want, t.desc)):
            return
        for k in order:
            a = next(a for a in (saxes if k in shared else daxes) if a['kind'] == k)
            t.check(np.array_equal(o.coord(standard_name=k).points, a['points']), 'output-coordinates', lambda: k + ' ' + t.desc)
        if scalar:
            t.check(len(o.coords('forecast run')) == 1, 'scalar-coordinate-lost', t.desc)
        t.check(o.var_name == 'g%d' % v and o.units == 'K', 'metadata', t.desc)
        got = vol
        for k in lone:
            t.check(len(o.coords(standard_name=k)) == 1, 'scalar-coordinate-lost', t.desc)
        gm = np.ma.getmaskarray(got)
        src = np.ma.asarray(vals[v]).astype(float)
        srcm = np.ma.getmaskarray(src)
        src = np.asarray(src.data)
        for ix in np.ndindex(want):
            t.mark('cells_judged')
            pos = dict(zip(order, ix))
            if judged_mask and sm[tuple(pos[k] for k in sk)]:
                t.mark('missing_sample_cells')
                t.check(gm[ix], 'value-at-missing-sample', lambda: '%s cell %s' % (t.desc, ix))
                continue
            bl = [look[k, pos[k]] if k in shared else ([[(pos[k], 1.)]], False, False) for k in dk]
            if any(b[2] for b in bl) or any(b[0] is None for b in bl):
                if extrap or any(b[0] is None for b in bl) or gm[ix]:
                    t.mark('not_judged')
                    continue
                bl = [(bracket(next(a for a in daxes if a['kind'] == k)['points'], float(next(a for a in saxes if a['kind'] == k)['points'][pos[k]]),
                               method, extrap, True, True) + (False,)) if b[2] else b for k, b in zip(dk, bl)]
            out_of = any(b[1] is True for b in bl)
            may_out = any(b[1] for b in bl)
            if out_of and not extrap:
                t.mark('cells_outside')
                t.check(gm[ix], 'value-outside-grid', lambda: '%s cell %s -> %s' % (t.desc, ix, got[ix]))
                continue
            if out_of:
                t.mark('extrapolated_cells')
            ok = False
            refs = []
            for alt in itertools.product(*[b[0] for b in bl]):
                num = 0.
                sure_mask = maybe_mask = False
                mag = 0.
                for pick in itertools.product(*alt):
                    w = float(np.prod([p[1] for p in pick]))
                    i = tuple(p[0] for p in pick)
                    if srcm[i]:
                        maybe_mask = True
                        sure_mask |= abs(w) > 1e-9
                    else:
                        num += w * src[i]
                        mag = max(mag, abs(w * src[i]))
                if maybe_mask:
                    t.mark('masked_neighbour')
                refs.append((num, sure_mask, maybe_mask))
                if gm[ix]:
                    ok |= maybe_mask or (may_out and not extrap)
                else:
                    # extrapolation weights of masked values are not judged
                    ok |= (not sure_mask or (out_of and extrap)) and (out_of and maybe_mask or abs(got[ix] - num) <= 1e-7 * (1 + mag))
            t.check(ok, 'wrong-value', lambda: '%s cell %s at %s got %s want (value, missing, maybe missing) %s' % (
                t.desc, ix, {k: float(o.coord(standard_name=k).points[pos[k]]) for k in order}, got[ix], refs))
    t.seen(tuple(dk), tuple(sk), tuple(a['direction'] for a in daxes + saxes), lons and lons[0][2], method, extrap, smode, nvar, scalar,
           tuple(int(l[0] // 180) for l in lons))
