"""C09: subsetting ungridded data; the selection is recomputed point by point."""
import datetime
import numpy as np
from vmon import gen

CASES = {'quick': 4000, 'thorough': 25000}
RULE = ('one observation per distinct (data coordinates, limited coordinates with form of the limits, longitude conventions, shape?, list?, array shape, '
        'outcome class) whose every point was compared')
REQUIRED = {'points_kept': 5000, 'points_dropped': 5000, 'empty': 30, 'edge_points': 200, 'edge_instants': 20, 'shapes': 100, 'lon_relabelled': 200, 'lists': 100,
            'refusals': 10, 'masked_kept': 100}
ASSUMPTIONS = ['points within 1e-9 of a limit but not exactly on it (rounding) are not judged, nor are points within 1e-7 of the outline of a shape',
               'times within 0.1 ms of a datetime limit (but not exactly on it) are not judged', 'longitude limits are ascending and at most 360 degrees wide, as documented']
NAMES = {'latitude': ['latitude', 'y', 'Y', 'lat_v'], 'longitude': ['longitude', 'x', 'X', 'lon_v'], 'altitude': ['altitude', 'z', 'alt_v'],
         'air_pressure': ['air_pressure', 'p', 'pres_v'], 'time': ['time', 't', 'T', 'time_v'], 'wavelength': ['wavelength', 'wave_v']}
EPOCH = datetime.datetime(1600, 1, 1)


def inside_polygon(px, py, qx, qy):
    """ray casting; (inside, distance to outline)."""
    inside = np.zeros(len(qx), bool)
    dist = np.full(len(qx), np.inf)
    m = len(px)
    for i in range(m):
        x1, y1, x2, y2 = px[i], py[i], px[(i + 1) % m], py[(i + 1) % m]
        cond = (y1 > qy) != (y2 > qy)
        with np.errstate(divide='ignore', invalid='ignore'):
            xi = (x2 - x1) * (qy - y1) / (y2 - y1) + x1
        inside ^= cond & (qx < xi)
        L = (x2 - x1) ** 2 + (y2 - y1) ** 2
        s = np.clip(((qx - x1) * (x2 - x1) + (qy - y1) * (y2 - y1)) / max(L, 1e-30), 0, 1)
        dist = np.minimum(dist, np.hypot(qx - x1 - s * (x2 - x1), qy - y1 - s * (y2 - y1)))
    return inside, dist


def polygon(r, clon, clat, size):
    m = int(r.integers(3, 8))
    ang = np.sort(r.uniform(0, 2 * np.pi, m))
    rad = size * r.uniform(.3, 1, m)
    return clon + rad * np.cos(ang), np.clip(clat + rad * np.sin(ang), -89, 89)


def as_datetime(x):
    d = EPOCH + datetime.timedelta(days=float(x))
    whole = (d + datetime.timedelta(microseconds=500000)).replace(microsecond=0)
    return whole if abs((d - whole).total_seconds()) < 1e-3 else d


def limits(t, r, k, x):
    """(spec given to cis, low, high, tolerance, form); low/high None when open."""
    from cis.time_util import PartialDateTime
    srt = np.sort(x)
    a, b = sorted(r.integers(0, len(x), 2))
    lo, hi = float(srt[a]), float(srt[b])
    style = r.random()
    span = max(srt[-1] - srt[0], 1e-3)
    if style < .3:
        lo, hi = float(np.round(lo - r.uniform(0, .1) * span, 3)), float(np.round(hi + r.uniform(0, .1) * span, 3))
    elif style < .4:
        lo, hi = hi + 2 * span, hi + 3 * span       # usually nothing
    elif style < .45:
        lo = hi
    tol = 0.
    form = str(r.choice(['list', 'slice', 'tuple', 'lower', 'upper', 'none'], p=[.4, .2, .1, .1, .1, .1]))
    if k == 'longitude':
        width = float(r.choice([5., 45., 120., 180., 359., 360.]))
        lo = float(r.integers(-180, 181)) if r.random() < .7 else float(srt[a])
        lo += float(r.choice([0, 0, 0, -180, 180, 360]))
        hi = lo + width
        form = str(r.choice(['list', 'slice', 'tuple']))
    if k == 'time':
        f = r.random()
        if f < .3:
            d = as_datetime(x[r.integers(0, len(x))])
            q = int(r.integers(1, 5))
            pd = PartialDateTime(*[d.year, d.month, d.day, d.hour][:q])
            start = datetime.datetime(*([d.year, d.month, d.day, d.hour][:q] + [1] * max(0, 3 - q)))
            end = {1: lambda: datetime.datetime(d.year + 1, 1, 1), 2: lambda: datetime.datetime(d.year + d.month // 12, d.month % 12 + 1, 1),
                   3: lambda: start + datetime.timedelta(days=1), 4: lambda: start + datetime.timedelta(hours=1)}[q]()
            # the last second of the period is its end
            return (pd if r.random() < .5 else [pd]), gen.days(start), gen.days(end - datetime.timedelta(seconds=1)), 1.2e-9, 'partial%d' % q, \
                (gen.days(end - datetime.timedelta(seconds=1)), gen.days(end))
        if f < .7:
            d0, d1 = as_datetime(lo).replace(microsecond=0), as_datetime(hi).replace(microsecond=0)
            if r.random() < .5:
                d0, d1 = d0.replace(minute=0, second=0), d1.replace(minute=0, second=0)
            sp = [d0, d1]
            lo, hi, tol = gen.days(d0), gen.days(d1), 1.2e-9
            if form in ('lower', 'upper', 'none'):
                if form == 'lower':
                    sp, hi = [d0, None], None
                elif form == 'upper':
                    sp, lo = [None, d1], None
                else:
                    sp, lo, hi = [None, None], None, None
                form = 'dt' + form
            else:
                sp = slice(*sp) if form == 'slice' else sp
                form = 'datetime' + form
            return sp, lo, hi, tol, form, None
    sp = [lo, hi]
    if form == 'slice':
        sp = slice(lo, hi)
    elif form == 'tuple':
        sp = (lo, hi)
    elif form == 'lower':
        sp, hi = [lo, None], None
    elif form == 'upper':
        sp, lo = slice(None, hi), None
    elif form == 'none':
        sp, lo, hi = [None, None], None, None
    return sp, lo, hi, tol, form, None


def case(t):
    from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList
    from cis.data_io.Coord import CoordList, Coord
    from cis.exceptions import CoordinateNotFoundError
    r = t.rng
    have = [str(k) for k in r.permutation(gen.STD)][:int(r.integers(1, 6))]
    n = int(r.choice([1, 2, 10, 40, 120]))
    c = gen.rand_coords(r, n, have)
    if 'time' in c and r.random() < .5:
        c['time'] = np.floor(c['time'].min()) + np.round((c['time'] - c['time'].min()) * 24) / 24.
    for k in ('altitude', 'air_pressure'):
        if k in c and r.random() < .4:
            c[k] = np.maximum(np.round(c[k], -2), 1)
    if r.random() < .2:
        have.append('wavelength')
        c['wavelength'] = r.integers(300, 900, n).astype(float)
    shape = (n,)
    if n % 2 == 0 and r.random() < .3:
        shape = (2, n // 2) if r.random() < .5 else (n // 2, 2)
    lazylist = []
    for k in have:
        nm = {'latitude': 'lat_v', 'longitude': 'lon_v', 'altitude': 'alt_v', 'air_pressure': 'pres_v', 'time': 'time_v', 'wavelength': 'wave_v'}[k]
        if k == 'wavelength':
            lazylist.append(Coord(c[k].copy().reshape(shape), gen.meta(name=nm, long_name='wavelength', units='nm')))
        else:
            lazylist.append(gen.coord(k, c[k].copy().reshape(shape), name=nm))
    cl = CoordList(lazylist)
    nvar = int(r.choice([1, 1, 1, 2, 3]))
    vs, arrs = [], []
    for v in range(nvar):
        val = gen.values(r, n)
        if r.random() < .15:
            val = np.ma.array(val)
            val[r.integers(0, n)] = np.nan
        if r.random() < .2 and not np.isnan(np.asarray(val)).any():
            val = val.astype(int)
        arrs.append(val)
        vs.append(UngriddedData(val.copy().reshape(shape), gen.meta(name='v%d' % v, long_name='long %d' % v, units='K'), cl))
    data = UngriddedDataList(vs) if nvar > 1 or r.random() < .1 else vs[0]
    islist = isinstance(data, UngriddedDataList)
    kw, ok, unsure = {}, np.ones(n, bool), np.zeros(n, bool)
    forms, lonlim = [], None
    want = [k for k in have if r.random() < .45]
    for k in [str(q) for q in r.permutation(want)]:
        sp, lo, hi, tol, form, grey = limits(t, r, k, c[k])
        kw[str(r.choice(NAMES[k]))] = sp
        forms.append((k, form))
        x = c[k]
        if k == 'longitude':
            lonlim = (lo, hi)
            cand = x[None, :] + 360. * np.arange(-4, 5)[:, None]
            ok &= ((cand >= lo) & (cand <= hi)).any(axis=0)
            near = np.minimum(np.abs(cand - lo), np.abs(cand - hi)).min(axis=0)
            dy = np.round(x * 1024) == x * 1024
            unsure |= (near < 1e-9) & ~((near == 0) & dy)
            t.mark('edge_points', ((near == 0) & dy).sum())
            continue
        for lim, sign in ((lo, 1), (hi, -1)):
            if lim is None:
                continue
            d = sign * (x - lim)
            ok &= d >= 0
            if tol:
                unsure |= (np.abs(d) < tol) & (d != 0)
            t.mark('edge_points', (d == 0).sum())
            if k == 'time' and tol:
                t.mark('edge_instants', (d == 0).sum())
        if grey:
            unsure |= (x >= grey[0] - tol) & (x <= grey[1] + tol)
    poly = None
    if 'latitude' in have and 'longitude' in have and r.random() < .3:
        i = int(r.integers(0, n))
        size = float(r.choice([3., 20., 60.]))
        px, py = polygon(r, c['longitude'][i] + r.uniform(-1, 1) * size / 2 + 360. * int(r.choice([0, 0, 0, -1, 1])), c['latitude'][i] + r.uniform(-1, 1) * size / 2, size)
        px, py = np.round(px, 4), np.round(py, 4)
        wkt = 'POLYGON((' + ', '.join('%.4f %.4f' % p for p in zip(list(px) + [px[0]], list(py) + [py[0]])) + '))'
        poly = wkt
        if r.random() < .4:
            from shapely.wkt import loads
            kw['shape'] = loads(wkt)
        else:
            kw['shape'] = wkt
        inn = np.zeros(n, bool)
        for j in range(-4, 5):
            a, d = inside_polygon(px, py, c['longitude'] + 360. * j, c['latitude'])
            inn |= a
            unsure |= d < 1e-7
        ok &= inn
        t.mark('shapes')
        if r.random() < .5:
            kw = {k: kw[k] for k in r.permutation(list(kw)).tolist()}
    if r.random() < .04:
        bad = str(r.choice(['coord', 'shape', 'limit']))
        k2 = dict(kw)
        k2.update({'coord': {'nonsense': [0, 1]}, 'shape': {'shape': 'POLYGON((oops'}, 'limit': {have[0]: [1, 2, 3]}}[bad])
        try:
            data.subset(**k2)
            t.fail('bad-request-accepted', bad)
        except (CoordinateNotFoundError, ValueError):
            t.mark('refusals')
        return
    t.describe('coords %s n=%d shape=%s nvar=%d list=%s limits %s' % (have, n, shape, nvar, islist, kw))
    if islist:
        t.mark('lists')
    before = [(np.ma.asarray(v.data).copy(), [np.ma.asarray(q.data).copy() for q in v.coords()]) for v in vs]
    out = data.subset(**kw)
    must, may = np.nonzero(ok & ~unsure)[0], np.nonzero(ok | unsure)[0]
    if out is None:
        t.check(len(must) == 0, 'points-lost', lambda: '%s: all of %d points' % (t.desc, len(must)))
        t.mark('empty')
        t.seen('empty', tuple(have), tuple(forms), poly is not None, islist, shape)
        return
    if not t.check(islist == isinstance(out, UngriddedDataList), 'result-type', t.desc):
        return
    out = gen.as_list(out)
    if not t.check(len(out) == nvar and all(o is not None for o in out), 'result-count', lambda: '%s: %s' % (t.desc, out)):
        return
    for v, o in enumerate(out):
        d = np.ma.asarray(o.data)
        if not t.check(d.ndim == 1 or not kw, 'result-shape', lambda: '%s: %s' % (t.desc, d.shape)):
            return
        d = d.ravel()
        t.check(len(d) > 0, 'empty-object', t.desc)
        # which input points are in the result, in order: match the coordinates greedily
        names = [q.name() for q in o.coords()]
        t.check(names == [q.name() for q in vs[v].coords()], 'coordinates-lost', lambda: '%s: %s' % (t.desc, names))
        oc = {}
        for k, q in zip(have, o.coords()):
            oc[k] = np.ma.asarray(q.data).ravel()
            if not t.check(len(oc[k]) == len(d), 'misaligned', lambda: '%s: %s %d %d' % (t.desc, k, len(oc[k]), len(d))):
                return
        # the expected result allows each unsure point in or out: walk through the input in order
        j = 0
        a = np.ma.asarray(arrs[v])
        am = np.ma.getmaskarray(a)
        dm = np.ma.getmaskarray(d)

        def same(i, j):
            if am[i] != dm[j]:
                return False
            if not am[i] and not (a.data[i] == d.data[j] or (a.dtype.kind == 'f' and np.isnan(a.data[i]) and np.isnan(d.data[j]))):
                return False
            for k in have:
                x, y = c[k][i], oc[k][j]
                if k == 'longitude' and (lonlim or poly):
                    if abs((x - y + 180) % 360 - 180) > 1e-9:
                        return False
                elif x != y:
                    return False
            return True
        kept = []
        for i in may:
            if j < len(d) and same(i, j):
                kept.append(i)
                j += 1
            elif ok[i] and not unsure[i]:
                t.fail('wrong-selection', '%s: point %d %s value %s expected at output %d (%s)' % (
                    t.desc, i, {k: c[k][i] for k in have}, a[i], j, {k: oc[k][j] for k in have} if j < len(d) else 'end'))
                return
        if not t.check(j == len(d), 'wrong-selection', lambda: '%s: output has %d points too many, from %d: %s' % (
                t.desc, len(d) - j, j, {k: oc[k][j] for k in have})):
            return
        t.mark('points_kept', len(d))
        t.mark('masked_kept', dm.sum())
        t.mark('points_dropped', n - len(d))
        if lonlim:
            y = np.asarray(oc['longitude'])
            t.check(((y >= lonlim[0] - 1e-9) & (y <= lonlim[1] + 1e-9)).all() or poly is not None, 'longitude-not-in-requested-range', lambda: '%s: %s' % (t.desc, y[:5]))
            moved = np.abs(y - c['longitude'][kept]) > 1
            t.mark('lon_relabelled', moved.sum())
            inr = (c['longitude'][kept] >= lonlim[0]) & (c['longitude'][kept] <= lonlim[1])
        t.check((o.var_name, o.long_name, str(o.units)) == ('v%d' % v, 'long %d' % v, 'K'), 'metadata', lambda: '%s %s' % (o.var_name, o.units))
        t.check(d.dtype == a.dtype, 'dtype', lambda: '%s %s' % (d.dtype, a.dtype))
    for v, (d0, c0) in zip(vs, before):
        okin = gen.compatible(v.data, d0, 0, 0) and all(gen.compatible(q.data, q0, 0, 0) for q, q0 in zip(v.coords(), c0))
        t.check(okin, 'input-changed', t.desc)
    t.seen(tuple(have), tuple(forms), None if lonlim is None else (lonlim[0] < 0, lonlim[1] > 180, lonlim[1] - lonlim[0]), poly is not None, islist, shape, len(must) == n)
