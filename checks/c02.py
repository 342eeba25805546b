"""C02: nearest-point and radius queries against a brute-force great-circle reference."""
import numpy as np
from vmon import gen
from vmon.geo import gc_matrix, gc, R

CASES = {'quick': 1600, 'thorough': 6000}
RULE = ('one observation per distinct (query kind, cloud geometry class, size class, leaf size, mask?, k / radius class, '
        'longitude convention) whose index answer was compared with exhaustive search')
REQUIRED = {'ball_queries': 100, 'ball_tree_pairs': 100, 'nearest_queries': 100, 'nn_kernel_points': 100,
            'distance_pairs': 100, 'grid_nn_points_bin': 50, 'grid_nn_points_box': 50, 'grid_nn_nn_h': 20,
            'grid_nn_nn_a': 20, 'grid_nn_nn_p': 20, 'grid_nn_nn_t': 20}
ASSUMPTIONS = ['great-circle distance on a sphere of radius 6378 km (the radius CIS documents in its code)',
               'points within 1 m of a query radius are not judged (rounding)']
TOL = 1e-3


def build(t):
    r = t.rng
    n = int(r.choice([1, 2, 5, 12, 13, 40, 120, 300]))
    la, lo = gen.cloud(r, n)
    if r.random() < 0.3:       # shifted convention per point
        lo = lo + 360.0 * r.integers(-1, 2, n) if r.random() < 0.5 else np.mod(lo, 360)
    m = int(r.integers(1, 40))
    kind = r.choice(['cloud', 'near', 'own', 'antipode'])
    if kind == 'cloud':
        qa, qo = gen.cloud(r, m)
    else:
        i = r.integers(0, n, m)
        s = {'near': 2.0, 'own': 0.0, 'antipode': 0.5}[kind]
        qa, qo = la[i] + r.normal(0, 1, m) * s, lo[i] + r.normal(0, 1, m) * s
        if kind == 'antipode':
            qa, qo = -qa, qo + 180
        qa = np.clip(qa, -90, 90)
    mask = None
    if r.random() < 0.35 and n > 1:
        mask = r.random(n) < 0.3
        mask[int(r.integers(0, n))] = False
    return la, lo, qa, qo, mask, kind


def radius(r):
    return float(r.choice([0.5, 5., 50., 300., 1000., 3000., 9000., 15000., 19900., 20100.]) * r.uniform(0.8, 1.2))


def case(t):
    which = t.index % 5
    if t.index % 10 == 3:
        onto_grid(t)
    elif which == 0:
        tree_ball(t)
    elif which == 1:
        tree_nearest(t)
    elif which == 2:
        index_api(t)
    elif which == 3:
        kernels(t)
    else:
        distances(t)


def data_array(la, lo):
    return np.column_stack([la, lo])


def judge_ball(t, got, d, rad, mask, mech, info):
    got = sorted(int(i) for i in got)
    t.check(len(set(got)) == len(got), mech + '-duplicate', info)
    ok = np.ones(len(d), bool) if mask is None else ~mask
    must = set(np.nonzero(ok & (d < rad - TOL))[0].tolist())
    may = set(np.nonzero(ok & (d < rad + TOL))[0].tolist())
    g = set(got)
    t.check(must <= g, mech + '-missed-point', lambda: '%s missed %s at %s km, r=%s' % (
        info, sorted(must - g)[:5], [d[i] for i in sorted(must - g)[:5]], rad))
    t.check(g <= may, mech + '-extra-point', lambda: '%s extra %s at %s km, r=%s' % (
        info, sorted(g - may)[:5], [d[i] for i in sorted(g - may)[:5]], rad))


def tree_ball(t):
    from cis.collocation.kdtree import HaversineDistanceKDTree
    r = t.rng
    la, lo, qa, qo, mask, kind = build(t)
    leaf = int(r.choice([1, 2, 3, 10, 16]))
    tree = HaversineDistanceKDTree(data_array(la, lo), leafsize=leaf, mask=mask)
    rad = radius(r)
    info = 'n=%d leaf=%d mask=%s kind=%s' % (len(la), leaf, mask is not None, kind)
    t.describe(info + ' r=%.1f' % rad)
    d = gc_matrix(qa, qo, la, lo)
    for j in range(len(qa)):
        got = tree.query_ball_point([[qa[j], qo[j]]], rad)[0]
        t.mark('ball_queries')
        judge_ball(t, got, d[j], rad, mask, 'ball-point', '%s q=(%r,%r)' % (info, qa[j], qo[j]))
    other = HaversineDistanceKDTree(data_array(qa, qo), leafsize=int(r.choice([1, 4, 10])))
    res = other.query_ball_tree(tree, rad)
    t.check(len(res) == len(qa), 'ball-tree-length', info)
    for j in range(len(qa)):
        t.mark('ball_tree_pairs')
        judge_ball(t, res[j], d[j], rad, mask, 'ball-tree', '%s q=(%r,%r)' % (info, qa[j], qo[j]))
    t.seen('ball', kind, len(la), leaf, mask is not None, int(np.log2(rad)), bool((lo > 180).any()), bool((lo < 0).any()))


def tree_nearest(t):
    from cis.collocation.kdtree import HaversineDistanceKDTree
    r = t.rng
    la, lo, qa, qo, mask, kind = build(t)
    leaf = int(r.choice([1, 2, 3, 10, 16]))
    tree = HaversineDistanceKDTree(data_array(la, lo), leafsize=leaf, mask=mask)
    k = int(r.choice([1, 1, 2, 3, 7]))
    info = 'n=%d leaf=%d mask=%s kind=%s k=%d' % (len(la), leaf, mask is not None, kind, k)
    t.describe(info)
    d = gc_matrix(qa, qo, la, lo)
    ok = np.ones(len(la), bool) if mask is None else ~mask
    for j in range(len(qa)):
        dist, idx = tree.query(np.array([qa[j], qo[j]]), k=k)
        dist, idx = np.atleast_1d(dist), np.atleast_1d(idx)
        t.mark('nearest_queries')
        want = np.sort(d[j][ok])[:k]
        fin = np.isfinite(dist)
        where = '%s q=(%r,%r)' % (info, qa[j], qo[j])
        if not t.check(fin.sum() == len(want), 'nearest-count', where):
            continue
        got = [int(i) for i in idx[fin]]
        t.check(len(set(got)) == len(got) and all(ok[i] for i in got), 'nearest-invalid-index', where)
        gd = np.array([d[j][i] for i in got])
        t.check(np.allclose(np.sort(gd), want, atol=TOL, rtol=0), 'nearest-not-minimal',
                lambda: '%s got %s want %s' % (where, gd, want))
        t.check(np.allclose(dist[fin], gd, atol=0.05, rtol=1e-6), 'nearest-reported-distance',
                lambda: '%s reported %s true %s' % (where, dist[fin], gd))
    # vectorised query gives the same as single queries
    dist, idx = tree.query(np.column_stack([qa, qo]), k=1)
    gd = d[np.arange(len(qa)), np.asarray(idx).astype(int)]
    t.check(np.allclose(gd, np.where(ok[None, :], d, np.inf).min(axis=1), atol=TOL, rtol=0), 'nearest-not-minimal',
            info + ' (array query)')
    t.seen('near', kind, len(la), leaf, mask is not None, k, bool((lo > 180).any()), bool((lo < 0).any()))


def index_api(t):
    import pandas as pd
    from cis.collocation.haversinedistancekdtreeindex import HaversineDistanceKDTreeIndex
    r = t.rng
    la, lo, qa, qo, mask, kind = build(t)
    df = pd.DataFrame(dict(latitude=la, longitude=lo, vals=np.arange(len(la)) * 1.0))
    qs = pd.DataFrame(dict(latitude=qa, longitude=qo, vals=np.arange(len(qa)) * 1.0))
    ix = HaversineDistanceKDTreeIndex()
    leaf = int(r.choice([1, 5, 10]))
    ix.index_data(qs, df, None, leafsize=leaf)
    rad = radius(r)
    d = gc_matrix(qa, qo, la, lo)
    info = 'index n=%d leaf=%d kind=%s r=%.1f' % (len(la), leaf, kind, rad)
    t.describe(info)
    res = ix.find_points_within_distance_sample(qs, rad)
    near = np.asarray(ix.find_nearest_point(qs)).astype(int)
    t.check(len(res) == len(qa) and len(near) == len(qa), 'index-length', info)
    for j in range(len(qa)):
        where = '%s q=(%r,%r)' % (info, qa[j], qo[j])
        t.mark('ball_queries')
        judge_ball(t, res[j], d[j], rad, None, 'index-sample', where)
        judge_ball(t, ix.find_points_within_distance(qs.iloc[j], rad), d[j], rad, None, 'index-point', where)
        t.mark('nearest_queries')
        t.check(d[j][near[j]] <= d[j].min() + TOL, 'index-nearest-not-minimal',
                lambda: '%s got %s at %s, best %s' % (where, near[j], d[j][near[j]], d[j].min()))
    t.seen('index', kind, len(la), leaf, int(np.log2(rad)), bool((lo > 180).any()), bool((lo < 0).any()))


def kernels(t):
    """Nearest-neighbour kernels through the public collocation call; every data value is distinct, so the value
    identifies the point."""
    r = t.rng
    n, m = int(r.choice([1, 3, 20, 60])), int(r.integers(1, 15))
    dc, sc = gen.rand_coords(r, n), gen.rand_coords(r, m)
    if r.random() < 0.5:       # put the samples among the data so that small separations select something
        i = r.integers(0, n, m)
        for k in sc:
            s = dict(latitude=1., longitude=1., altitude=300., air_pressure=20., time=0.3)[k]
            sc[k] = dc[k][i] + r.normal(0, 1, m) * s * r.choice([0., 1.])
        sc['latitude'] = np.clip(sc['latitude'], -90, 90)
        sc['air_pressure'] = np.abs(sc['air_pressure']) + 1
    if r.random() < 0.3:
        for k in ('altitude', 'air_pressure', 'time'):      # ties
            dc[k] = np.round(dc[k] / {'altitude': 2000., 'air_pressure': 100., 'time': 1}[k]) * \
                {'altitude': 2000., 'air_pressure': 100., 'time': 1}[k]
        dc['air_pressure'] = np.maximum(dc['air_pressure'], 50)
    vals = np.arange(n) * 1.0 + 1000
    mask = None
    if r.random() < 0.4:
        mask = r.random(n) < 0.3
        vals = np.ma.masked_array(vals, mask=mask)
    valid = np.ones(n, bool) if mask is None else ~mask
    data = gen.ungridded(dc, vals, 'v')
    sample = gen.ungridded(sc, np.zeros(m), 's')
    kern = str(r.choice(['nn_h', 'nn_a', 'nn_p', 'nn_t', 'nn_horizontal', 'nn_altitude', 'nn_pressure', 'nn_time',
                         'nn_horizontal_only']))
    kw = {}
    hsep = None
    if kern == 'nn_horizontal_only' or r.random() < 0.5:
        hsep = radius(r)
        kw['h_sep'] = hsep
    D = gc_matrix(sc['latitude'], sc['longitude'], dc['latitude'], dc['longitude'])
    t.describe('kernel %s n=%d m=%d h_sep=%s masked=%s' % (kern, n, m, hsep, mask is not None))
    if not valid.any():
        return
    out = gen.as_list(data.collocated_onto(sample, how='box', kernel=kern, **kw))
    if not t.check(len(out) == 1 and out[0].data.shape == (m,), 'nn-output-shape', kern):
        return
    got = np.ma.asarray(out[0].data)
    gm = np.ma.getmaskarray(got)
    k4 = kern[:4]
    if kern.startswith('nn_h'):
        sep = D
    elif k4 == 'nn_a':
        sep = np.abs(sc['altitude'][:, None] - dc['altitude'][None, :])
    elif k4 == 'nn_t':
        sep = np.abs(sc['time'][:, None] - dc['time'][None, :])
    else:
        a, b = sc['air_pressure'][:, None], dc['air_pressure'][None, :]
        sep = np.maximum(a / b, b / a)
    tol = TOL if kern.startswith('nn_h') else 1e-9 * (1 + np.abs(sep).max())
    for j in range(m):
        t.mark('nn_kernel_points')
        where = '%s sample %d' % (t.desc, j)
        inside = valid.copy()
        near_edge = False
        if hsep is not None and kern != 'nn_horizontal_only':
            near_edge = bool((np.abs(D[j] - hsep) < TOL).any())
            inside &= D[j] < hsep
        if near_edge:
            continue
        if not inside.any():
            t.check(gm[j], 'nn-value-where-no-point', where)
            continue
        if not t.check(not gm[j], 'nn-missing', where):
            continue
        idx = int(round(float(got[j]) - 1000))
        if not t.check(0 <= idx < n and inside[idx], 'nn-not-a-candidate', lambda: '%s -> %s' % (where, got[j])):
            continue
        best = sep[j][inside].min()
        t.check(sep[j][idx] <= best + tol, 'nn-not-nearest', lambda: '%s chose sep %r, best %r' % (where, sep[j][idx], best))
    t.seen('kernel', kern, n, m > 5, hsep is not None and int(np.log2(hsep)), mask is not None)


def onto_grid(t):
    """Nearest-neighbour kernels with a grid as the sample: in each of its cells ('bin'), or within the horizontal
    separation of each of its points ('box')."""
    r = t.rng
    n = int(r.choice([1, 5, 40, 150]))
    names = ['latitude', 'longitude', str(r.choice(['altitude', 'air_pressure', 'time']))]
    span = dict(latitude=(-40., 40.), longitude=(10., 120.), altitude=(0., 8000.), air_pressure=(100., 1000.),
                time=(150000., 150010.))
    dc = {k: r.uniform(*span[k], n) for k in names}
    vals = np.ma.masked_array(np.arange(n) * 1.0 + 1000, mask=r.random(n) < r.choice([0, 0, 0.3]))
    valid = ~np.ma.getmaskarray(vals)
    if not valid.any():
        return
    axes = [str(k) for k in r.permutation(names if r.random() < 0.7 else names[:2])]
    pts, bnd = [], []
    for k in axes:
        a, b = span[k]
        e = np.sort(r.uniform(a, b, int(r.integers(2, 6))))
        e = np.unique(np.round(e, 3))
        if len(e) < 2:
            return
        bnd.append(np.column_stack([e[:-1], e[1:]]))
        pts.append(bnd[-1].mean(axis=1))
    how = str(r.choice(['bin', 'box']))
    kern = 'nn_h' if len(axes) == 2 else dict(altitude='nn_a', air_pressure='nn_p', time='nn_t')[names[2]]
    if r.random() < 0.3:
        kern = 'nn_h'
    data = gen.ungridded(dc, vals, 'v')
    sample = gen.cube([dict(kind=k, points=p, bounds=b) for k, p, b in zip(axes, pts, bnd)],
                      np.zeros([len(p) for p in pts]), 's')
    kw = {}
    if how == 'box':
        kw['h_sep'] = hsep = float(r.choice([300., 1500., 5000.]))
    t.describe('onto grid %s %s %s n=%d axes=%s shape=%s data coords=%s' %
               (how, kern, kw, n, axes, sample.shape, [c.standard_name for c in data.coords()]))
    out = gen.as_list(data.collocated_onto(sample, how=how, kernel=kern, **kw))
    if not t.check(len(out) == 1 and out[0].shape == sample.shape, 'grid-nn-output-shape', kern):
        return
    got = gen.nanmask(out[0].data)
    gm = np.ma.getmaskarray(got)
    for ix in np.ndindex(*sample.shape):
        at = {k: p[i] for k, p, i in zip(axes, pts, ix)}
        D = gc_matrix([at['latitude']], [at['longitude']], dc['latitude'], dc['longitude'])[0]
        inside = valid.copy()
        if how == 'bin':
            edge = False
            for k, b, i in zip(axes, bnd, ix):
                inside &= (dc[k] > b[i, 0]) & (dc[k] < b[i, 1])
                edge |= bool((np.abs(dc[k][:, None] - b[i]) < 1e-9).any())
        else:
            edge = bool((np.abs(D - hsep) < TOL).any())
            inside &= D < hsep
        if edge:
            continue
        t.mark('grid_nn_points_' + how)
        where = '%s at %s' % (t.desc, at)
        if not inside.any():
            t.check(gm[ix], 'grid-nn-value-where-no-point', where)
            continue
        if not t.check(not gm[ix], 'grid-nn-missing', where):
            continue
        t.mark('grid_nn_' + kern)
        if kern == 'nn_h':
            sep, tol = D, TOL
        elif kern == 'nn_p':
            a, b = at['air_pressure'], dc['air_pressure']
            sep, tol = np.maximum(a / b, b / a), 1e-9
        else:
            sep = np.abs(dc[names[2]] - at[names[2]])
            tol = 1e-9 * (1 + sep.max())
        idx = int(round(float(got[ix]) - 1000))
        if t.check(0 <= idx < n and inside[idx], 'grid-nn-not-a-candidate', lambda: '%s -> %s' % (where, got[ix])):
            t.check(sep[idx] <= sep[inside].min() + tol, 'grid-nn-not-nearest',
                    lambda: '%s chose sep %r, best %r' % (where, sep[idx], sep[inside].min()))
    t.seen('grid kernel', how, kern, n, len(axes), tuple(axes))


def distances(t):
    from cis.utils import haversine
    from cis.collocation.kdtree import haversine_distance
    from cis.data_io.hyperpoint import HyperPoint
    r = t.rng
    la, lo, qa, qo, mask, kind = build(t)
    m = min(len(la), len(qa))
    pairs = [(la[i], lo[i], qa[i], qo[i]) for i in range(m)]
    pairs += [(a, o, -a, o + 180) for a, o in zip(la[:10], lo[:10])]
    pairs += [(a, o, a, o + 360) for a, o in zip(la[:10], lo[:10])]
    t.describe('distance pairs, %s' % kind)
    a, b = np.array(pairs)[:, :2], np.array(pairs)[:, 2:]
    vec = haversine_distance(a, b)
    for i, (a1, o1, a2, o2) in enumerate(pairs):
        t.mark('distance_pairs')
        want = gc(a1, o1, a2, o2)
        # the haversine form loses precision towards the antipode (at most ~1e-8 rad); judge to 1 m there too
        tol = 2e-3 if want < 19000 else 1.0
        where = repr((a1, o1, a2, o2))
        p, q = HyperPoint(a1, o1, 1., 2., 3., 4.), HyperPoint(a2, o2, 1., 2., 3., 4.)
        for name, got in (('utils', haversine(a1, o1, a2, o2)), ('hyperpoint', p.haversine_dist(q)),
                          ('kdtree', haversine_distance(np.array([a1, o1]), np.array([a2, o2]))), ('vector', vec[i])):
            # the geographic package-wide radius of each function must agree with the one used for selection
            t.check(got >= 0 and abs(got - want) <= tol, 'distance-value-' + name, lambda: '%s got %r want %r' % (where, got, want))
        s, s2 = haversine(a1, o1, a2, o2), haversine(a2, o2, a1, o1)
        t.check(abs(s - s2) <= tol, 'distance-asymmetric', where)
        t.check(abs(haversine(a1, o1 + 360, a2, o2) - s) <= tol, 'distance-not-periodic', where)
    i, j, k = (int(x) for x in r.integers(0, len(pairs), 3))
    h = [HyperPoint(pairs[x][0], pairs[x][1], float(r.integers(0, 9)), float(r.integers(1, 9)), float(r.integers(0, 9)))
         for x in (i, j, k)]
    d1, d2 = [gc(h[0].latitude, h[0].longitude, x.latitude, x.longitude) for x in h[1:]]
    if abs(d1 - d2) > 1.0:
        t.check(h[0].compdist(h[1], h[2]) == (d1 > d2), 'compdist', str(h))
    t.check(h[0].compalt(h[1], h[2]) == (abs(h[0].altitude - h[1].altitude) > abs(h[0].altitude - h[2].altitude)), 'compalt', str(h))
    t.check(h[0].comptime(h[1], h[2]) == (abs(h[0].time - h[1].time) > abs(h[0].time - h[2].time)), 'comptime', str(h))
    ps = [max(h[0].air_pressure / x.air_pressure, x.air_pressure / h[0].air_pressure) for x in h[1:]]
    if abs(ps[0] - ps[1]) > 1e-12:
        t.check(h[0].comppres(h[1], h[2]) == (ps[0] > ps[1]), 'comppres', str(h))
    t.check(h[0].pres_sep(h[1]) >= 1 and abs(h[0].pres_sep(h[1]) - ps[0]) < 1e-12, 'pres-sep', str(h))
    f = h[0].furthest_point_from()
    t.check(abs(gc(h[0].latitude, h[0].longitude, f.latitude, f.longitude) - np.pi * R) < 1e-3, 'furthest-point', str(h[0]))
    t.seen('dist', kind, m, len(pairs))
