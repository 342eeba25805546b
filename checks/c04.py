"""C04: gridded data onto ungridded samples, against an independent per-point multilinear / nearest reference."""
import itertools
import numpy as np
from vmon import gen

CASES = {'quick': 1920, 'thorough': 8000}
RULE = ('one observation per distinct (dimension order, directions, circular?, longitude conventions, method, extrapolate?, '
        'vertical kind, mask class, sample class, list?) whose every sample point was compared with the reference')
REQUIRED = {'points_judged': 3000, 'outside_points': 300, 'masked_neighbour': 100, 'hybrid_points': 300,
            'seam_points': 100, 'extrapolated_points': 100, 'skipped_missing_samples': 50}
ASSUMPTIONS = ['global longitude wrap-around is promised for grids whose longitude coordinate is marked circular (as on load)',
               'a masked grid value with exactly zero weight may or may not make the result missing',
               'points within 1e-9 of a grid edge or of a nearest-neighbour tie may go either way',
               'every grid dimension has at least two points']


def bracket(pts, x, method, extrap, circular=False, lon=False):
    """-> (alternatives, outside) with alternatives = list of [(index, weight)...]; outside in (False, True, 'edge')."""
    order = np.argsort(pts)
    p = np.asarray(pts, float)[order]
    idx = list(order)
    if lon:
        if circular:
            x = p[0] + (x - p[0]) % 360.
            if x >= p[0] + 360:
                x = p[0]
            p = np.append(p, p[0] + 360)
            idx.append(idx[0])
        else:
            c = x + 360. * np.arange(-3, 4)
            inside = c[(c >= p[0] - 1e-9) & (c <= p[-1] + 1e-9)]
            if len(inside):
                x = inside[0]
            else:
                mid = 0.5 * (p[0] + p[-1])
                x = c[np.argmin(abs(c - mid))]
                if abs(abs(x - mid) - 180) < 1:
                    return None, True
    outside = False
    if x < p[0] or x > p[-1]:
        outside = True
        if min(abs(x - p[0]), abs(x - p[-1])) < 1e-9:
            outside = 'edge'
    elif any(abs(x - e) < 1e-9 and (x != e or lon) for e in (p[0], p[-1])):
        outside = 'edge'
    if lon and circular:
        outside = False
    i = int(np.clip(np.searchsorted(p, x) - 1, 0, len(p) - 2))
    w = (x - p[i]) / (p[i + 1] - p[i])
    if method == 'lin':
        alts = [[(idx[i], 1 - w), (idx[i + 1], w)]]
        # rounding decides which of its neighbours a point (almost) on the grid has
        if abs(w) < 1e-9 and i > 0 and (lon or x != p[i]):
            alts.append([(idx[i - 1], 0.), (idx[i], 1.)])
        elif abs(w - 1) < 1e-9 and i + 2 < len(p) and (lon or x != p[i + 1]):
            alts.append([(idx[i + 1], 1.), (idx[i + 2], 0.)])
        return alts, outside
    if abs(w - 0.5) < 1e-9:
        return [[(idx[i], 1.)], [(idx[i + 1], 1.)]], outside
    return [[(idx[i], 1.)] if w < 0.5 else [(idx[i + 1], 1.)]], outside


def raw(pts, x, circular, lon):
    lin = bracket(pts, x, 'lin', True, circular, lon)[0]
    return lin[0][0][0], lin[0][1][0], lin[0][1][1]


def defect_column(g, s, i, method):
    """The column the recorded defect 'hybrid-column-weights' produces: the vertical column is interpolated with the
    weights of the first dimensions of the grid, whichever dimensions the vertical coordinate really has."""
    vd, arr, dims, kind = g['hybrid']
    others = [d for d in range(len(g['axes'])) if d != vd]
    hd = [d for d in dims if d != vd]
    if hd == others[:len(hd)]:
        return None
    b = {d: raw(g['axes'][d]['points'], float(s[g['axes'][d]['kind']][i]), g['axes'][d].get('circular', False),
                g['axes'][d]['kind'] == 'longitude') for d in others}
    col = np.zeros(arr.shape[dims.index(vd)])
    for pick in itertools.product([0, 1], repeat=len(hd)):
        w = 1.
        ix = [slice(None)] * arr.ndim
        for j, (d, k) in enumerate(zip(hd, pick)):
            wj = b[others[j]][2]
            if method == 'nn':
                wj = 0. if wj <= 0.5 else 1.
            w *= wj if k else 1 - wj
            ix[dims.index(d)] = b[d][k]
        col += w * arr[tuple(ix)]
    return col


def reference(g, s, i, method, extrap, defect=False):
    """-> ('missing',) | ('values', [(value, tol, maybe_masked)...]) | ('either', values) | None (not judged)."""
    brs, outs = [], []
    for ax in g['axes']:
        if ax is None:
            brs.append(None)
            continue
        b, o = bracket(ax['points'], float(s[ax['kind']][i]), method, extrap, ax.get('circular', False), ax['kind'] == 'longitude')
        outs.append(o)
        if b is None:
            if extrap:
                return None
            return ('missing',)
        brs.append(b)
    if not extrap and any(o is True for o in outs):
        return ('missing',)
    alts = []
    hyb = g.get('hybrid')
    if hyb is None:
        for combo in itertools.product(*brs):
            alts.append(combo)
    else:
        vd, arr, dims, kind = hyb
        x = float(s[kind][i])
        for combo in itertools.product(*[b if b is not None else [None] for b in brs]):
            nz = arr.shape[dims.index(vd)]
            col = np.zeros(nz) if not defect else defect_column(g, s, i, method)
            if col is None:
                return None
            hd = [d for d in dims if d != vd]
            for nodes in [] if defect else itertools.product(*[combo[d] for d in hd]):
                w = np.prod([n[1] for n in nodes]) if nodes else 1.0
                ix = [None] * arr.ndim
                for d, n in zip(hd, nodes):
                    ix[dims.index(d)] = n[0]
                ix[dims.index(vd)] = slice(None)
                col += w * arr[tuple(ix)]
            if not (np.all(np.diff(col) > 0) or np.all(np.diff(col) < 0)):
                return None
            if min(abs(x - col[0]), abs(x - col[-1])) < 1e-6 * max(1, abs(x)):
                return None
            b, o = bracket(col, x, method, extrap)
            if o and not extrap:
                alts.append(None)
                continue
            for bb in b:
                c = list(combo)
                c[vd] = bb
                alts.append(tuple(c))
    vals = g['values']
    data, mask = np.asarray(vals.data, float), np.ma.getmaskarray(vals)
    res = []
    for combo in alts:
        if combo is None:
            res.append(('missing',))
            continue
        v, must, may, big = 0., False, False, 0.
        for nodes in itertools.product(*combo):
            w = np.prod([n[1] for n in nodes])
            ix = tuple(n[0] for n in nodes)
            if mask[ix]:
                if abs(w) > 1e-9:
                    must = True
                else:
                    may = True
                continue
            v += w * data[ix]
            big = max(big, abs(w * data[ix]))
        if must:
            res.append(('missing', 'masked'))
        else:
            res.append(('value', v, 1e-6 * max(1., big), may))
    if any(o == 'edge' for o in outs) and not extrap:
        res.append(('missing',))
    return res


def make_grid(t, r):
    kinds = ['latitude', 'longitude']
    vert = r.choice(['none', 'none', 'altitude', 'air_pressure', 'hyb_height', 'hyb_pressure', 'aux_alt', 'aux_pres'])
    vert = str(vert)
    if r.random() < 0.4:
        kinds.append('time')
    if vert in ('altitude', 'air_pressure'):
        kinds.append(vert)
    elif vert != 'none':
        kinds.append('level')
    kinds = [str(k) for k in (kinds if r.random() < 0.25 else r.permutation(kinds))]
    axes = []
    for k in kinds:
        if k == 'level':
            axes.append(None)
            continue
        ax = gen.axis(r, k, n=int(r.integers(2, 6)) if k != 'longitude' else int(r.integers(3, 9)))
        if k == 'longitude':
            ax['circular'] = ax['conv'] in ('glob0', 'glob180')
        axes.append(ax)
    nz = int(r.integers(2, 6))
    shape = tuple(nz if a is None else len(a['points']) for a in axes)
    v = r.integers(-4000, 4000, shape) / 4.0
    dt = str(r.choice(['f8', 'f4', 'i4']))
    v = v.astype(dt)
    mk = str(r.choice(['plain', 'nomask', 'some', 'most']))
    if mk != 'plain':
        junk = v.copy()
        m = r.random(shape) < {'nomask': 0., 'some': .2, 'most': .7}[mk]
        junk[m] = np.array(-9999).astype(dt)
        v = np.ma.masked_array(junk, mask=m)
    g = dict(axes=axes, kinds=kinds, values=np.ma.asarray(v), raw=v, vert=vert, mk=mk, dt=dt, nz=nz, hybrid=None)
    if vert not in ('none', 'altitude', 'air_pressure'):
        hybrid(t, r, g)
    return g


def hybrid(t, r, g):
    """Terrain-following vertical coordinate: field over some horizontal dims (and perhaps time), value per level."""
    kinds, axes, nz = g['kinds'], g['axes'], g['nz']
    vd = kinds.index('level')
    fdims = [d for d, k in enumerate(kinds) if k in ('latitude', 'longitude') or (k == 'time' and r.random() < 0.5 and
                                                                                   g['vert'] in ('hyb_pressure', 'aux_pres', 'aux_alt'))]
    fshape = tuple(len(axes[d]['points']) for d in fdims)
    down = r.random() < 0.4
    if g['vert'] in ('hyb_height', 'aux_alt'):
        field = np.round(r.uniform(0, 2500, fshape), 1)
        delta = np.cumsum(np.round(r.uniform(500, 3000, nz), 1))
        sigma = np.linspace(0.9, 0.1, nz)
        kind = 'altitude'
        ok = np.diff(delta).min() if nz > 1 else 1
        field *= min(1.0, 0.9 * ok / (0.8 / max(nz - 1, 1) * 2500 + 1))
    else:
        field = np.round(r.uniform(60000, 102000, fshape), 1)
        sigma = np.linspace(0.05, 0.95, nz)
        delta = np.linspace(300., 2000., nz)
        kind = 'air_pressure'
    if down:
        delta, sigma = delta[::-1].copy(), sigma[::-1].copy()
    dims = sorted(fdims + [vd])
    sh = [1] * len(dims)
    sh[dims.index(vd)] = nz
    fsh = list(field.shape)
    fsh.insert(dims.index(vd), 1)
    arr = delta.reshape(sh) + sigma.reshape(sh) * field.reshape(fsh)
    g['hybrid'] = (vd, arr, dims, kind)
    g['hyb_parts'] = (delta, sigma, field, fdims)
    g['down'] = down


def build_cube(g, name='g', raw=None):
    from iris.coords import DimCoord, AuxCoord
    from iris.aux_factory import HybridHeightFactory, HybridPressureFactory
    from cis.data_io.gridded_data import GriddedData
    dims, aux = [], []
    for i, a in enumerate(g['axes']):
        if a is None:
            dims.append((DimCoord(np.arange(g['nz']), standard_name='model_level_number', units='1', var_name='lev'), i))
        else:
            dims.append((gen.dim_coord(a, bounds=True, circular=a.get('circular') if a['kind'] == 'longitude' else None), i))
    c = GriddedData(raw if raw is not None else g['raw'].copy(), var_name=name, long_name=name + ' long', units='K', dim_coords_and_dims=dims)
    if g['hybrid'] is not None:
        vd, arr, hd, kind = g['hybrid']
        delta, sigma, field, fdims = g['hyb_parts']
        if g['vert'] == 'hyb_height':
            d = AuxCoord(delta, long_name='level_height', units='m')
            s = AuxCoord(sigma, long_name='sigma', units='1')
            o = AuxCoord(field, standard_name='surface_altitude', units='m')
            fac = HybridHeightFactory(d, s, o)
        elif g['vert'] == 'hyb_pressure':
            d = AuxCoord(delta, long_name='level_pressure', units='Pa')
            s = AuxCoord(sigma, long_name='sigma', units='1')
            o = AuxCoord(field, standard_name='surface_air_pressure', units='Pa')
            fac = HybridPressureFactory(d, s, o)
        else:
            c.add_aux_coord(AuxCoord(arr, standard_name=kind, units='m' if kind == 'altitude' else 'Pa'), hd)
            return c
        c.add_aux_coord(d, vd)
        c.add_aux_coord(s, vd)
        c.add_aux_coord(o, fdims)
        c.add_aux_factory(fac)
    return c


def make_samples(t, r, g):
    m = int(r.integers(1, 25))
    s = {}
    for k in ('latitude', 'longitude', 'altitude', 'air_pressure', 'time'):
        ax = next((a for a in g['axes'] if a is not None and a['kind'] == k), None)
        if ax is not None:
            p = np.sort(ax['points'])
            span = p[-1] - p[0]
            x = r.uniform(p[0] - 0.25 * span, p[-1] + 0.25 * span, m)
            on = r.random(m)
            x = np.where(on < 0.15, r.choice(p, m), x)
            j = r.integers(0, len(p) - 1, m)
            if g['hybrid'] is None:
                x = np.where((on > 0.15) & (on < 0.25), 0.5 * (p[j] + p[j + 1]), x)
            if k == 'longitude':
                style = r.choice(['as_is', '0_360', '-180_180', 'seam', 'mixed'])
                if style == 'seam' and ax['circular']:
                    x = p[0] + r.uniform(-1, 1, m) * 360. / len(p)
                    style = r.choice(['as_is', '0_360', '-180_180'])
                if style == '0_360':
                    x = x % 360
                elif style == '-180_180':
                    x = (x + 180) % 360 - 180
                elif style == 'mixed':
                    x = np.where(r.random(m) < 0.5, x % 360, (x + 180) % 360 - 180)
                g['lonstyle'] = str(style)
            if k == 'latitude':
                x = np.clip(x, -90, 90)
            s[k] = x
        elif g['hybrid'] is not None and g['hybrid'][3] == k:
            arr = g['hybrid'][1]
            s[k] = r.uniform(arr.min() * 0.9, arr.max() * 1.05, m)
        elif k in ('latitude', 'longitude'):
            s[k] = r.uniform(-80, 80, m)
        elif r.random() < 0.3:
            s[k] = r.uniform(1, 1000, m)
    order = [str(x) for x in r.permutation(list(s))]
    return {k: s[k] for k in order}, m


def case(t):
    from cis.data_io.ungridded_data import UngriddedCoordinates
    from cis.data_io.gridded_data import GriddedDataList
    from cis.collocation.col import collocate
    from cis.collocation.col_implementations import GriddedUngriddedCollocator
    r = t.rng
    g = make_grid(t, r)
    s, m = make_samples(t, r, g)
    cubes = [build_cube(g)]
    gs = [g]
    listed = r.random() < 0.3
    if listed:
        v2 = r.integers(-4000, 4000, g['values'].shape) / 4.0
        g2 = dict(g, values=np.ma.asarray(v2))
        cubes.append(build_cube(g2, 'h', v2))
        gs.append(g2)
        if r.random() < 0.5 and g['hybrid'] is None:
            # another variable on a grid with the same coordinates in another order or direction
            perm = [int(x) for x in r.permutation(len(g['axes']))] if r.random() < 0.3 else list(range(len(g['axes'])))
            if [len(g['axes'][p]['points']) for p in perm] == [len(a['points']) for a in g['axes']]:
                ax3, v3 = [dict(g['axes'][p]) for p in perm], v2.transpose(perm)
                for d, a in enumerate(ax3):
                    if r.random() < 0.5:
                        a['points'], a['bounds'] = a['points'][::-1].copy(), a['bounds'][::-1, ::-1].copy()
                        v3 = np.flip(v3, d)
                g3 = dict(g, axes=ax3, values=np.ma.asarray(v3.copy()))
                cubes.append(build_cube(g3, 'k', v3.copy()))
                gs.append(g3)
    method = str(r.choice(['lin', 'nn', '']))
    extrap = r.random() < 0.3
    ss = str(r.choice(['plain', 'nomask', 'falsemask', 'missing', 'keep', 'coords', '2d']))
    sv = np.zeros(m)
    miss = np.zeros(m, bool)
    shape = (m,)
    kw = {}
    if ss == 'nomask':
        sv = np.ma.array(sv)
    elif ss == 'falsemask':
        sv = np.ma.masked_array(sv, mask=miss.copy())
    elif ss in ('missing', 'keep'):
        bad = r.random(m) < 0.4
        sv = np.ma.masked_array(sv, mask=bad)
        if ss == 'missing':
            miss = bad
        else:
            kw['missing_data_for_missing_sample'] = False
    elif ss == '2d' and m % 2 == 0:
        shape = (2, m // 2)
    sample = gen.ungridded({k: v.copy().reshape(shape) for k, v in s.items()}, sv.reshape(shape), 's')
    if ss == 'coords':
        sample = UngriddedCoordinates(sample.coords())
    data = GriddedDataList(cubes) if listed else cubes[0]
    t.describe('%s %s %s vert=%s(%s) circ=%s lon=%s method=%s extrap=%s mask=%s %s sample=%s m=%d list=%d' % (
        g['kinds'], [a['direction'] if a else 0 for a in g['axes']], [len(a['points']) if a else g['nz'] for a in g['axes']],
        g['vert'], g.get('down'), [a['circular'] for a in g['axes'] if a and a['kind'] == 'longitude'], g['lonstyle'], method, extrap,
        g['mk'], g['dt'], ss, m, len(cubes)))
    fill = [None, -999.0][int(r.integers(0, 2))]
    if r.random() < 0.25:
        col = GriddedUngriddedCollocator(fill_value=fill, extrapolate=extrap,
                                         missing_data_for_missing_sample=kw.get('missing_data_for_missing_sample', ss != 'coords'))
        out = collocate(data, sample, col, None, method or 'lin')
        if r.random() < 0.3:
            # the same collocator again, for other samples in the same place in memory or not
            keep = r.permutation(m)[:max(1, m // 2)]
            s2 = gen.ungridded({k: v[keep].copy() for k, v in s.items()}, np.zeros(len(keep)), 's2')
            t.mark('collocator_reused')
            o2 = collocate(cubes[-1], s2, col, None, method or 'lin')
            judge(t, o2[0], gs[-1], {k: v[keep] for k, v in s.items()}, len(keep), np.zeros(len(keep), bool), method or 'lin', extrap, 'reused')
    else:
        if fill is not None:
            kw['fill_value'] = fill
        if extrap or r.random() < 0.3:
            kw['extrapolate'] = extrap
        out = data.collocated_onto(sample, how=method, **kw)
    out = gen.as_list(out)
    if not t.check(len(out) == len(cubes), 'output-count', lambda: '%d' % len(out)):
        return
    for o, gg, c in zip(out, gs, cubes):
        t.check(o.var_name == c.var_name and str(o.units) == 'K', 'output-metadata', lambda: '%s %s' % (o.var_name, o.units))
        judge(t, o, gg, s, m, miss, method or 'lin', extrap, 'main')
    t.seen(tuple(g['kinds']), tuple(a['direction'] if a else 0 for a in g['axes']), g['vert'], g.get('down'), g['lonstyle'],
           method, extrap, g['mk'], g['dt'], ss, len(cubes))


def judge(t, o, g, s, m, miss, method, extrap, tag):
    got = np.ma.asarray(o.data).ravel()
    if not t.check(got.shape == (m,), 'output-length', lambda: '%s %s' % (got.shape, m)):
        return
    for k in s:
        c = o.coord(standard_name=k)
        p = np.asarray(c.points, float).ravel()
        ok = len(p) == m and np.allclose((p - s[k] + 180) % 360 - 180 if k == 'longitude' else p - s[k], 0, atol=1e-9)
        t.check(ok, 'sample-positions-changed', lambda: '%s %s: %s' % (tag, k, t.desc))
    gm = np.ma.getmaskarray(got)
    for i in range(m):
        where = lambda: '%s point %d %s: got %r masked=%s, want %s' % (t.desc, i, {k: float(v[i]) for k, v in s.items()}, got.data[i], gm[i], res)
        if miss[i]:
            res = 'missing sample'
            t.mark('skipped_missing_samples')
            t.check(gm[i], tag + '-value-at-missing-sample', where)
            continue
        res = reference(g, s, i, method, extrap)
        if res is None:
            t.mark('not_judged')
            continue
        t.mark('points_judged')
        if g['hybrid'] is not None:
            t.mark('hybrid_points')
        if res == ('missing',):
            res = [res]
        if any(x[0] == 'missing' and len(x) == 1 for x in res):
            t.mark('outside_points')
        if any(x == ('missing', 'masked') for x in res):
            t.mark('masked_neighbour')
        if extrap:
            t.mark('extrapolated_points')
        for ax in g['axes']:
            if ax is not None and ax['kind'] == 'longitude' and ax['circular']:
                x = (s['longitude'][i] - min(ax['points'])) % 360
                if x > max(ax['points']) - min(ax['points']):
                    t.mark('seam_points')
        mech = verdict(res, gm[i], got.data[i])
        if mech and g['hybrid'] is not None:
            bad = reference(g, s, i, method, extrap, defect=True)
            applies = defect_column(g, s, i, method) is not None
            if applies and any(abs(raw(a['points'], float(s[a['kind']][i]), a.get('circular', False), a['kind'] == 'longitude')[2] - e) < 1e-9
                               for a in g['axes'] if a is not None for e in (0., .5, 1.)):
                bad = None                 # on a grid line, where what the recorded defect yields is discontinuous
            if bad is None and applies:
                t.mark('not_judged')       # the recorded defect applies, but what it yields here is ill-conditioned
                continue
            if bad is not None and verdict([bad] if isinstance(bad, tuple) else bad, gm[i], got.data[i]) is None:
                t.fail('hybrid-column-weights', where())
                continue
        t.check(mech is None, '%s-%s' % (tag, mech), where)


def verdict(res, masked, value):
    if masked:
        return None if any(x[0] == 'missing' or x[3] for x in res) else 'missing-inside-grid'
    vals = [x for x in res if x[0] == 'value']
    if not vals:
        return 'value-where-missing'
    return None if any(abs(float(value) - x[1]) <= x[2] for x in vals) else 'wrong-value'
