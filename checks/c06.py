"""C06: binning ungridded data onto a grid; a recording kernel reports exactly which points each cell was given."""
import numpy as np
from vmon import gen
from vmon.geo import gc_matrix

CASES = {'quick': 1920, 'thorough': 8000}
RULE = ('one observation per distinct (sample dimension order, directions, bounds style, longitude conventions, data '
        'coordinates, mask class, kernel kind, list?, missing-sample setting) whose every cell was compared')
REQUIRED = {'cells_judged': 10000, 'points_placed': 5000, 'points_outside': 500, 'edge_points': 200,
            'masked_points': 200, 'missing_sample_cells': 100, 'box_cells': 200, 'big_grids': 4}
ASSUMPTIONS = ['cells are judged from the bounds the sample grid carries, or the contiguous bounds iris guesses',
               'points within 1e-9 of a cell edge that are not exactly on it are not judged']


def recorder():
    from cis.collocation.col_framework import AbstractDataOnlyKernel

    class Recorder(AbstractDataOnlyKernel):
        def __init__(self):
            self.calls = []

        def get_value_for_data_only(self, values):
            self.calls.append(np.sort(np.array(values, float)))
            return float(len(self.calls) - 1)
    return Recorder()


def spoil_bounds(r, ax):
    """None | 'guess' | 'swap' (low, high on a descending axis) | 'gap' (cells that do not touch)."""
    n = len(ax['points'])
    style = str(r.choice(['given', 'given', 'guess', 'swap', 'gap'])) if n > 1 else 'given'
    if style == 'guess' and n < 2:
        style = 'given'
    b = ax['bounds']
    if style == 'swap':
        ax['bounds'] = np.sort(b, axis=1) if ax['direction'] < 0 else b
    elif style == 'gap':
        half = 0.5 * (b[:, 1] - b[:, 0])
        mid = 0.5 * (b[:, 1] + b[:, 0])
        ax['bounds'] = np.stack([mid - 0.75 * half, mid + 0.75 * half], 1)
    ax['style'] = style
    return style


def case(t):
    from cis.data_io.ungridded_data import UngriddedDataList
    from cis.exceptions import UserPrintableException
    r = t.rng
    kinds = [str(k) for k in r.permutation(gen.STD)][:int(r.integers(1, 4))]
    if r.random() < 0.7:
        kinds = [k for k in kinds if k not in ('latitude', 'longitude')][:1] + ['latitude', 'longitude']
        kinds = [str(k) for k in r.permutation(kinds)]
    big = t.index % 30 == 7       # more cells than 15, 16 or 17 bits can number
    if big:
        kinds = [str(k) for k in r.permutation(['latitude', 'longitude'] + ([] if r.random() < 0.6 else ['time']))]
    axes = []
    for k in kinds:
        n = int(r.integers(1, 7)) if not big else int(r.integers(2, 5)) if k == 'time' else int(r.integers(190, 380))
        ax = gen.axis(r, k, n=max(n, 2) if k == 'longitude' else n)
        if k == 'longitude' and r.random() < 0.3:
            ax['points'], ax['bounds'] = ax['points'] - 180., ax['bounds'] - 180.
            if ax['points'].min() < -180:
                ax['points'], ax['bounds'] = ax['points'] + 180., ax['bounds'] + 180.
        spoil_bounds(r, ax)
        axes.append(ax)
    shape = tuple(len(a['points']) for a in axes)
    # data
    have = [k for k in gen.STD if (k in kinds and r.random() < 0.92) or (k not in kinds and r.random() < 0.3)]
    mapped = [k for k in kinds if k in have]
    if not mapped:
        have.append(kinds[0])
        mapped = [kinds[0]]
    n = int(r.choice([1, 2, 10, 60, 200])) if not big else 300
    coords = {}
    for k in [str(x) for x in r.permutation(have)]:
        ax = next((a for a in axes if a['kind'] == k), None)
        if ax is None:
            coords[k] = gen.rand_coords(r, n, [k] if k not in ('latitude', 'longitude') else ['latitude', 'longitude'])[k]
            continue
        lo, hi = ax['bounds'].min(), ax['bounds'].max()
        span = hi - lo
        x = r.uniform(lo - 0.15 * span, hi + 0.15 * span, n)
        u = r.random(n)
        x = np.where(u < 0.2, r.choice(ax['bounds'].ravel(), n), x)
        x = np.where((u > 0.2) & (u < 0.25), r.choice(ax['points'], n), x)
        if k == 'longitude':
            style = r.choice(['as_is', '0_360', '-180_180', 'mixed'])
            if style == '0_360':
                x = x % 360
            elif style == '-180_180':
                x = (x + 180) % 360 - 180
            elif style == 'mixed':
                x = x + 360. * r.integers(-1, 2, n)
        if k == 'latitude':
            x = np.clip(x, -90, 90)
        if k == 'air_pressure':
            x = np.maximum(x, 1)
        coords[k] = x
    nvar = int(r.choice([1, 1, 1, 2]))
    two_d = n % 2 == 0 and r.random() < 0.2
    dshape = (2, n // 2) if two_d else (n,)
    variables, valid = [], []
    for v in range(nvar):
        val = np.arange(n) + 1000.0 * (v + 1)
        mk = str(r.choice(['plain', 'nomask', 'some', 'all'], p=[.4, .15, .4, .05]))
        bad = np.zeros(n, bool)
        if mk != 'plain':
            bad = r.random(n) < {'nomask': 0, 'some': .3, 'all': 1.1}[mk]
            val = np.ma.masked_array(val, mask=bad) if mk != 'nomask' else np.ma.array(val)
        t.mark('masked_points', bad.sum())
        valid.append(~bad)
        variables.append(gen.ungridded({k: c.copy().reshape(dshape) for k, c in coords.items()}, val.reshape(dshape), 'v%d' % v))
    miss = r.random(shape) < 0.25
    smode = str(r.choice(['plain', 'missing', 'keep']))
    sv = np.ma.masked_array(np.zeros(shape), mask=miss) if smode != 'plain' else np.zeros(shape)
    dims = [(gen.dim_coord(a, bounds=a['style'] != 'guess'), i) for i, a in enumerate(axes)]
    from cis.data_io.gridded_data import GriddedData
    sample = GriddedData(sv, var_name='s', units='1', dim_coords_and_dims=dims)
    scalar = r.random() < 0.1
    if scalar:
        from iris.coords import AuxCoord
        sample.add_aux_coord(AuxCoord(2.0, long_name='height of instrument', units='m'))
    # the bounds by which cells are judged, from an independent copy
    cellb = []
    for a in axes:
        c = gen.dim_coord(a, bounds=a['style'] != 'guess')
        if not c.has_bounds():
            c.guess_bounds()
        cellb.append(np.sort(np.array(c.bounds, float), axis=1))
    kw = {}
    if smode == 'keep':
        kw['missing_data_for_missing_sample'] = False
    data = variables[0] if nvar == 1 else UngriddedDataList(variables)
    t.describe('sample %s %s %s bounds=%s lonconv=%s data=%s n=%d nvar=%d 2d=%s smode=%s' % (
        kinds, shape, [a['direction'] for a in axes], [a['style'] for a in axes],
        [(round(float(b.min()), 1), round(float(b.max()), 1)) for a, b in zip(axes, cellb) if a['kind'] == 'longitude'], list(coords), n, nvar,
        two_d, smode))
    if r.random() < 0.2 and not big:
        return box(t, r, sample, axes, data, variables, valid, coords, n, shape, miss, smode, kw, dshape)
    must_refuse = smode == 'missing' and (len(mapped) < len(kinds))
    rec = recorder()
    try:
        out = gen.as_list(data.collocated_onto(sample, how=str(r.choice(['bin', ''])), kernel=rec, **kw))
    except UserPrintableException:
        # allowed when sample cells do not correspond to output cells
        t.check(smode in ('missing', 'plain') and len(mapped) < len(kinds), 'refused', t.desc)
        t.mark('refused')
        return
    t.check(not must_refuse, 'ambiguous-missing-sample-accepted', t.desc)
    if not t.check(len(out) == nvar, 'output-count', t.desc):
        return
    okinds = mapped
    oshape = tuple(len(next(a for a in axes if a['kind'] == k)['points']) for k in okinds)
    # where each point belongs: index along each mapped axis, -1 outside, -2 not judged
    place = np.zeros((len(okinds), n), int)
    unsure = np.zeros(n, bool)
    for d, k in enumerate(okinds):
        b = cellb[kinds.index(k)]
        x = coords[k]
        cand = [x] if k != 'longitude' else [x + 360. * j for j in (-3, -2, -1, 0, 1, 2, 3)]
        place[d] = -1
        for j, c in enumerate(cand):
            inside = (c[:, None] >= b[None, :, 0]) & (c[:, None] < b[None, :, 1])
            if inside.sum(axis=1).max() > 1:
                return       # overlapping guessed cells: not a grid
            place[d] = np.where(inside.any(axis=1), inside.argmax(axis=1), place[d])
            gap = np.abs(c[:, None] - b.ravel()[None, :])
            close = gap < 1e-9
            if k == 'longitude':
                dyad = lambda z: np.round(z * 1024) == z * 1024
                exact = (gap == 0) & dyad(c)[:, None] & dyad(b.ravel())[None, :]
            else:
                exact = gap == 0
            unsure |= (close & ~exact).any(axis=1)
            t.mark('edge_points', int((close & exact).any(axis=1).sum()))
    outside = (place < 0).any(axis=0)
    t.mark('points_outside', outside.sum())
    for v, o in enumerate(out):
        names = [c.standard_name for c in o.coords(dim_coords=True)]
        if not t.check(names == okinds and o.shape == oshape, 'output-layout', lambda: '%s %s want %s %s' % (names, o.shape, okinds, oshape)):
            return
        for k, b, a in zip(kinds, cellb, axes):
            if k in okinds:
                c = o.coord(standard_name=k)
                t.check(np.array_equal(c.points, a['points']) and c.has_bounds() and
                        np.allclose(np.sort(c.bounds, axis=1), b, atol=1e-12), 'output-coordinates', lambda: k + ' ' + t.desc)
        got = np.ma.asarray(o.data)
        gm = np.ma.getmaskarray(got)
        if big:       # every cell that holds or should hold something, and a sample of the others
            cells = {tuple(c) for c in place.T[~outside].tolist()} | {tuple(c) for c in np.argwhere(~gm).tolist()}
            cells |= {tuple(int(r.integers(0, s)) for s in oshape) for _ in range(200)}
            t.mark('big_grids')
        else:
            cells = np.ndindex(oshape)
        for ix in cells:
            here = (place == np.array(ix)[:, None]).all(axis=0) & valid[v]
            must = set((np.nonzero(here & ~unsure)[0] + 1000.0 * (v + 1)).tolist())
            may = set((np.nonzero((here | unsure) & valid[v])[0] + 1000.0 * (v + 1)).tolist())
            skip = smode == 'missing' and okinds == kinds and miss[ix]
            t.mark('cells_judged')
            if skip:
                t.mark('missing_sample_cells')
                t.check(gm[ix], 'value-at-missing-sample', lambda: '%s cell %s' % (t.desc, ix))
                continue
            if gm[ix]:
                t.check(not must, 'points-lost', lambda: '%s cell %s should hold %s at %s' % (
                    t.desc, ix, sorted(must)[:4], [{k: coords[k][int(i) % 1000] for k in okinds} for i in sorted(must)[:2]]))
                continue
            sel = rec.calls[int(round(float(got[ix])))].tolist()
            g = set(sel)
            t.mark('points_placed', len(sel))
            t.check(len(sel) == len(g), 'point-counted-twice', t.desc)
            t.check(must <= g and g <= may, 'wrong-points-in-cell', lambda: '%s cell %s bounds %s: missed %s extra %s (%s)' % (
                t.desc, ix, [cellb[kinds.index(k)][i].tolist() for k, i in zip(okinds, ix)], sorted(must - g)[:4], sorted(g - may)[:4],
                [{k: coords[k][int(i) % 1000] for k in okinds} for i in sorted((must - g) | (g - may))[:2]]))
    t.seen(tuple(kinds), tuple(a['direction'] for a in axes), tuple(a['style'] for a in axes), tuple(sorted(coords)), nvar, two_d, smode, n)


def box(t, r, sample, axes, data, variables, valid, coords, n, shape, miss, smode, kw, dshape):
    """Ungridded data onto grid points with separations: each grid point behaves like an ungridded sample at its centre."""
    kinds = [a['kind'] for a in axes]
    t.describe(t.desc + ' BOX')
    sep = {}
    if 'latitude' in kinds and 'longitude' in kinds and 'latitude' in coords and 'longitude' in coords:
        sep['h_sep'] = float(r.choice([100., 1000., 3000.]))
    for k, name, vals in (('altitude', 'a_sep', [200., 2000.]), ('air_pressure', 'p_sep', [1.1, 2.]), ('time', 't_sep', None)):
        if k in kinds and k in coords:
            sep[name] = float(r.choice(vals)) if vals else str(r.choice(['P1D', 'PT6H']))
    if not sep or 'latitude' not in coords or 'longitude' not in coords:
        t.mark('box_not_applicable')
        return
    if not all(k in coords for k in kinds):
        t.mark('box_not_applicable')
        return
    rec = recorder()
    out = gen.as_list(data.collocated_onto(sample, how='box', kernel=rec, **dict(kw, **sep)))
    if not t.check(len(out) == len(variables), 'box-output-count', t.desc):
        return
    grids = np.meshgrid(*[a['points'] for a in axes], indexing='ij')
    pos = {k: g.ravel() for k, g in zip(kinds, grids)}
    m = int(np.prod(shape))
    ok = np.ones((m, n), bool)
    edge = np.zeros((m, n), bool)

    def limit(dist, lim, tol):
        ok[...] &= dist < lim
        edge[...] |= np.abs(dist - lim) < tol
    if 'h_sep' in sep:
        limit(gc_matrix(pos['latitude'], pos['longitude'], coords['latitude'], coords['longitude']), sep['h_sep'], 1e-3)
    if 'a_sep' in sep:
        limit(np.abs(pos['altitude'][:, None] - coords['altitude'][None]), sep['a_sep'], 1e-6)
    if 't_sep' in sep:
        limit(np.abs(pos['time'][:, None] - coords['time'][None]), {'P1D': 1., 'PT6H': .25}[sep['t_sep']], 1e-9)
    if 'p_sep' in sep:
        q = pos['air_pressure'][:, None] / coords['air_pressure'][None]
        limit(np.maximum(q, 1 / q), sep['p_sep'], 1e-9)
    for v, o in enumerate(out):
        if not t.check(o.shape == shape and [c.standard_name for c in o.coords(dim_coords=True)] == kinds, 'box-output-layout', t.desc):
            return
        got = np.ma.asarray(o.data).ravel()
        gm = np.ma.getmaskarray(got)
        for j in range(m):
            t.mark('box_cells')
            must = set((np.nonzero(ok[j] & ~edge[j] & valid[v])[0] + 1000.0 * (v + 1)).tolist())
            may = set((np.nonzero((ok[j] | edge[j]) & valid[v])[0] + 1000.0 * (v + 1)).tolist())
            if smode == 'missing' and miss.ravel()[j]:
                t.check(gm[j], 'box-value-at-missing-sample', t.desc)
            elif gm[j]:
                t.check(not must, 'box-points-lost', lambda: '%s cell %d %s' % (t.desc, j, sorted(must)[:4]))
            else:
                g = set(rec.calls[int(round(float(got[j])))].tolist())
                t.check(must <= g <= may, 'box-wrong-points', lambda: '%s cell %d missed %s extra %s' % (t.desc, j, sorted(must - g)[:4], sorted(g - may)[:4]))
    t.seen('box', tuple(kinds), tuple(sorted(sep)), len(variables), smode, n)
