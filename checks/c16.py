"""C16: time conversions preserve the instant, whatever the reference, shape, mask or view taken before."""
import datetime as D
import numpy as np
from vmon import gen

CASES = {'quick': 3000, 'thorough': 150000}
RULE = ('one observation per distinct (operation, reference unit and calendar, array type, shape, mask, views taken before, instants) '
        'of which every converted instant was compared with exact integer arithmetic on dates')
REQUIRED = {'since': 120, 'cube': 80, 'coord': 120, 'instants': 4000, 'masked': 80, 'datetimes': 60, 'monotonic': 200,
            'sec-since': 40, 'julian': 20, 'year': 20, 'units': 40, 'calendars': 20, 'views': 60}
ASSUMPTIONS = ['dates lie between 1600 and 2200', 'seconds are the finest resolution; tolerance is the larger of 20 microseconds and '
               'the spacing of the input representation', 'dates of non-Gregorian model calendars keep their calendar date, or are '
               'refused where the Gregorian calendar has no such date']

EPOCH = D.datetime(1600, 1, 1)
SCALE = {'days': 86400., 'hours': 3600., 'minutes': 60., 'seconds': 1.}
TOL = 2.5e-10        # days


def secs(d):
    """whole seconds since 1600, exactly"""
    x = d - EPOCH
    return x.days * 86400 + x.seconds


def rand_date(r):
    k = r.random()
    if k < 0.3:
        y = int(r.choice([1600, 1700, 1896, 1900, 1904, 1970, 1999, 2000, 2004, 2012, 2100, 2199]))
        md = [(2, 28), (3, 1), (12, 31), (1, 1), (6, 30), (10, 15)]
        if D.date(y, 12, 31).timetuple().tm_yday == 366:
            md += [(2, 29)] * 3
        m, d = md[int(r.integers(0, len(md)))]
        day = D.datetime(y, m, d)
    else:
        day = D.datetime(1600, 1, 1) + D.timedelta(days=int(r.integers(0, 219000)))
    s = int(r.choice([0, 0, 1, 43200, 86399, int(r.integers(0, 86400))]))
    return day + D.timedelta(seconds=s)


def rand_shape(r):
    return [(), (1,), (5,), (12,), (3, 4), (2, 3, 2), (6, 1)][int(r.integers(0, 7))]


def rand_array(r, shape, recent=None):
    """object array of datetimes (spread over a random span) in the given shape"""
    n = int(np.prod(shape)) if shape else 1
    base = recent or rand_date(r)
    span = float(r.choice([0, 10, 86400, 3e7, 3e9]))
    out = []
    for _ in range(n):
        k = int(r.integers(0, 4))
        d = base + D.timedelta(seconds=int(r.uniform(0, 1) * span)) if k else rand_date(r)
        if d.year >= 2200:
            d = rand_date(r)
        out.append(d)
    if r.random() < 0.3:
        out.sort()
    a = np.empty(n, object)
    a[:] = out
    return a.reshape(shape)


def want(dates, mask=None):
    w = np.array([secs(d) / 86400. for d in np.asarray(dates, object).ravel()], float).reshape(np.shape(dates))
    return w if mask is None else np.ma.masked_array(w, mask)


def rand_mask(r, shape):
    k = r.random()
    if not shape or k < 0.55:
        return None
    if k < 0.62:
        return np.zeros(shape, bool)
    if k < 0.68:
        return np.ones(shape, bool)
    return r.random(shape) < 0.4


def compare(t, got, w, mech, what, tol=TOL):
    """got: numbers in standard time; w: expected (masked) numbers"""
    t.mark('instants', max(1, np.size(w)))
    g = np.ma.asarray(got)
    w = np.ma.asarray(w)
    ok = g.shape == w.shape and np.array_equal(np.ma.getmaskarray(g), np.ma.getmaskarray(w))
    if ok:
        m = ~np.ma.getmaskarray(w)
        gg, ww = np.asarray(g.data)[m].astype(float), np.asarray(w.data)[m].astype(float)
        tol = np.broadcast_to(np.asarray(tol, float), w.shape)[m]
        ok = bool(np.all(np.abs(gg - ww) <= tol))
        if ok and ww.size > 1:
            o = np.argsort(ww, kind='stable')
            big = np.diff(ww[o]) > 2 * np.max(tol)
            t.check(bool(np.all(np.diff(gg[o])[big] > 0)), mech + '-order', lambda: what)
            t.mark('monotonic')
    t.check(ok, mech, lambda: '%s: got %s want %s' % (what, np.ma.asarray(got).ravel()[:6], w.ravel()[:6]))


def ymd(x):
    return D.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, getattr(x, 'microsecond', 0))


def case(t):
    k = ['since', 'stamp', 'sec', 'julian', 'datetime', 'coord', 'coord', 'cube', 'cube', 'year', 'units', 'calendar', 'since',
         'month'][t.index % 14]
    globals()['c_' + k](t, t.rng)
    t.seen(t.desc)


def ref_unit(r, cal=True):
    u = str(r.choice(list(SCALE)))
    ref = rand_date(r)
    if r.random() < 0.3:
        ref = D.datetime(int(r.choice([1900, 1970, 1980, 1993, 2000])), 1, 1)
    cals = ['standard', 'gregorian', 'proleptic_gregorian']
    c = str(r.choice(cals)) if cal else 'standard'
    fmt = str(r.choice(['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S']))
    return u, ref, c, '%s since %s' % (u, ref.strftime(fmt))


def number(dates, u, ref):
    """numbers in units u since ref for an array of datetimes"""
    a = np.array([(secs(d) - secs(ref)) / SCALE[u] for d in np.asarray(dates, object).ravel()], float).reshape(np.shape(dates))
    return a


def as_type(r, a, u):
    """the numbers in a random representation; returns (array, exact float64 value it denotes, absolute tolerance in days)"""
    k = str(r.choice(['f8', 'f8', 'f8', 'f4', 'i4', 'i8', 'big']))
    if k == 'i4' and np.any(np.abs(a) > 2e9):
        k = 'i8'
    if k in ('i4', 'i8'):
        b = np.round(a).astype(k)
    elif k == 'big':
        b = a.astype('>f8')
    else:
        b = a.astype(k)
    return b, np.asarray(b, float), np.spacing(np.abs(np.asarray(b, float))) * SCALE[u] / 86400. + TOL, k


def c_since(t, r):
    from cis.time_util import convert_time_since_to_std_time
    from cf_units import Unit
    shape = rand_shape(r)
    dates = rand_array(r, shape)
    u, ref, cal, us = ref_unit(r)
    a, x, tol, k = as_type(r, number(dates, u, ref), u)
    mask = rand_mask(r, shape)
    inp = np.ma.masked_array(a, mask) if mask is not None else a
    if mask is not None and r.random() < 0.5:
        inp.data[mask] = 99 if k in ('i4', 'i8') else 9.96e36      # what is left under a mask need not be a time
        t.mark('masked')
    before = (np.array(np.ma.getdata(inp), copy=True), np.array(np.ma.getmaskarray(inp)))
    t.describe('since %r %s %s %s mask=%s' % (us, cal, k, shape, mask is not None))
    out = convert_time_since_to_std_time(inp, Unit(us, calendar=cal))
    w = np.asarray(x * SCALE[u] / 86400. + secs(ref) / 86400.)
    compare(t, out, np.ma.masked_array(w, mask) if mask is not None else w, 'since-instant', t.desc, tol)
    t.check(np.array_equal(before[0], np.ma.getdata(inp)) and np.array_equal(before[1], np.ma.getmaskarray(inp)), 'since-input-changed', t.desc)
    t.mark('since')


def c_stamp(t, r):
    from cis.time_util import convert_time_using_time_stamp_info_to_std_time
    shape = rand_shape(r)
    dates = rand_array(r, shape)
    u, ref, cal, us = ref_unit(r, False)
    a, x, tol, k = as_type(r, number(dates, u, ref), u)
    word = u if r.random() < 0.7 else u[:-1]
    text = word + str(r.choice(['', ' from the file time reference 2012-12-12', ' elapsed']))
    t.describe('stamp %r %r' % (text, us))
    out = convert_time_using_time_stamp_info_to_std_time(a, text, us.split(' since ')[1])
    compare(t, out, x * SCALE[u] / 86400. + secs(ref) / 86400., 'stamp-instant', t.desc, tol)
    t.mark('since')


def c_sec(t, r):
    from cis.time_util import convert_sec_since_to_std_time
    shape = rand_shape(r)
    ref = rand_date(r) if r.random() < 0.6 else D.datetime(int(r.choice([1970, 1993, 2000])), 1, 1)
    dates = rand_array(r, shape)
    a, x, tol, k = as_type(r, number(dates, 'seconds', ref), 'seconds')
    mask = rand_mask(r, shape)
    inp = np.ma.masked_array(a, mask) if mask is not None else (a if shape else a[()])
    t.describe('seconds since %s %s %s mask=%s' % (ref, k, shape, mask is not None))
    out = convert_sec_since_to_std_time(inp, ref)
    w = x / 86400. + secs(ref) / 86400.
    compare(t, out, np.ma.masked_array(w, mask) if mask is not None else w, 'sec-since-instant', t.desc, tol)
    if ref.hour or ref.minute or ref.second:
        t.mark('ref-with-time')
    t.mark('sec-since')


def jd(d):
    return secs(d) / 86400. + 2305447.5        # Julian date of 1600-01-01T00:00 (Gregorian)


def c_julian(t, r):
    from cis.time_util import convert_julian_date_to_std_time
    shape = rand_shape(r)
    dates = rand_array(r, shape)
    mask = rand_mask(r, shape)
    j = np.array([jd(d) for d in dates.ravel()]).reshape(shape)
    inp = np.ma.masked_array(j, mask) if mask is not None else j
    t.describe('julian %s mask=%s' % (shape, mask is not None))
    out = convert_julian_date_to_std_time(inp)
    compare(t, out, want(dates, mask), 'julian-instant', t.desc, 2e-9)
    # the fractional day offset itself must be exact to the precision of a Julian date
    t.mark('julian')


def c_datetime(t, r):
    from cis.time_util import convert_datetime_to_std_time, convert_std_time_to_datetime
    shape = rand_shape(r)
    dates = rand_array(r, shape)
    mask = rand_mask(r, shape)
    t.describe('datetime %s mask=%s' % (shape, mask is not None))
    inp = dates if shape else dates[()]
    if mask is not None:
        inp = np.ma.masked_array(dates, mask)
        t.mark('masked')
    out = convert_datetime_to_std_time(inp)
    w = want(dates, mask)
    compare(t, out, w, 'datetime-number', t.desc)
    back = convert_std_time_to_datetime(w if shape else (float(w) if r.random() < 0.5 else np.float64(w)))
    if not shape:
        t.check(abs(ymd(back) - dates[()]) <= D.timedelta(microseconds=20), 'datetime-back', lambda: '%s: %s %s' % (t.desc, back, dates))
    else:
        b = np.ma.asarray(back)
        m = np.ma.getmaskarray(w)
        t.check(b.shape == shape and np.array_equal(np.ma.getmaskarray(b), m) and
                all(abs(ymd(p) - q) <= D.timedelta(microseconds=20) for p, q, z in zip(np.ma.getdata(b).ravel(), dates.ravel(), m.ravel()) if not z),
                'datetime-back', lambda: '%s: %s %s' % (t.desc, back, dates))
    t.mark('datetimes')


def look(t, r, obj):
    """take some views before the conversion"""
    seen = []
    for v in ('data', 'data_flattened', 'points', 'range', 'shape'):
        if r.random() < 0.5:
            seen.append(v)
            if v == 'range':
                obj.update_range()
            elif v == 'shape':
                obj.update_shape()
            else:
                getattr(obj, v, None)
    if seen:
        t.mark('views')
    return seen


def views(t, obj, w, mech, tol=TOL):
    compare(t, obj.data, w, mech, t.desc + ' data', tol)
    compare(t, obj.points, w, mech + '-points', t.desc + ' points', tol)
    compare(t, obj.data_flattened, np.ma.asarray(w).ravel(), mech + '-flattened', t.desc + ' flattened',
            tol if np.size(tol) == 1 else np.broadcast_to(tol, np.shape(w)).ravel())
    c = obj.copy()
    compare(t, c.data, w, mech + '-copy', t.desc + ' copy', tol)


def std_units(t, obj, mech):
    from cf_units import Unit
    t.check(isinstance(obj.units, Unit) and str(obj.units) == gen.TUNIT and obj.units.calendar in ('standard', 'gregorian'), mech,
            lambda: '%s: units %r' % (t.desc, obj.units))


def c_coord(t, r):
    from cis.data_io.Coord import Coord, CoordList
    from cis.data_io.ungridded_data import Metadata, UngriddedData
    shape = [(4,), (7,), (3, 4), (1,), (2, 2, 3)][int(r.integers(0, 5))]
    dates = rand_array(r, shape)
    mask = rand_mask(r, shape)
    kind = str(r.choice(['since', 'since', 'stamp', 'julian', 'tai', 'datetime', 'roundtrip']))
    lazy = r.random() < 0.35
    u, ref, cal, us = ref_unit(r, False)
    tol = TOL
    w = want(dates, mask)
    if kind in ('since', 'stamp', 'tai'):
        if kind == 'tai':
            u = 'seconds'
        a, x, tol, k = as_type(r, number(dates, u, ref), u)
        w = x * SCALE[u] / 86400. + secs(ref) / 86400.
        w = np.ma.masked_array(w, mask) if mask is not None else w
        units = {'since': us, 'stamp': u + ' of the day', 'tai': 's'}[kind]
        if kind == 'since' and r.random() < 0.4:
            units = us.title().replace('T', ' ', 0) if 'T' not in us.split('since')[1] else us
    elif kind == 'julian':
        a, units, tol = np.array([jd(d) for d in dates.ravel()]).reshape(shape), 'Julian Date, days elapsed since 12:00 January 1, 4713 BC', 2e-9
    elif kind == 'datetime':
        a, units = dates, 'DateTime Object'
    else:
        a, units = want(dates), gen.TUNIT
    data = np.ma.masked_array(a, mask) if mask is not None else a
    t.describe('coord %s %r %s lazy=%s mask=%s' % (kind, units, shape, lazy, mask is not None))
    md = Metadata(name='time', standard_name='time', shape=shape, units=units)
    c = Coord(['handle'], md, 'T', data_retrieval_callback=lambda _: data.copy()) if lazy else Coord(data.copy(), md, 'T')
    seen = look(t, r, c) if kind not in ('datetime', 'roundtrip') else (c.data_flattened if r.random() < 0.6 else None)
    if kind == 'since':
        c.convert_to_std_time(*([] if r.random() < 0.6 else [D.datetime(1999, 1, 1).isoformat()]))
    elif kind == 'stamp':
        c.convert_to_std_time(us.split(' since ')[1])
    elif kind == 'julian':
        c.convert_julian_to_std_time()
    elif kind == 'tai':
        c.convert_TAI_time_to_std_time(ref)
    elif kind == 'datetime':
        c.convert_datetime_to_standard_time() if r.random() < 0.5 else c.convert_to_std_time()
    else:
        c.convert_standard_time_to_datetime()
        d = np.ma.asarray(c.data)
        m = np.ma.getmaskarray(np.ma.asarray(w))
        fl = np.ma.asarray(c.data_flattened)
        for arr, nm in ((d.ravel(), 'data'), (fl, 'flattened')):
            t.check(all(hasattr(p, 'year') and abs(ymd(p) - q) <= D.timedelta(microseconds=20)
                        for p, q, z in zip(np.ma.getdata(arr), dates.ravel(), m.ravel()) if not z), 'coord-to-datetime-' + nm, t.desc)
        c.convert_standard_time_to_datetime() if r.random() < 0.3 else None          # already converted: nothing to do
        c.convert_datetime_to_standard_time()
    tol = float(np.max(tol))
    views(t, c, w, 'coord-' + kind, tol)
    std_units(t, c, 'coord-units')
    mm = ~np.ma.getmaskarray(np.ma.asarray(w))
    if mm.any():
        c.update_range()
        lo, hi = c.metadata.range
        ww = np.asarray(w)[mm] if mask is None else np.asarray(w.data)[mm]
        t.check(abs(secs(ymd(lo)) / 86400. - ww.min()) < 1.01 / 86400 + tol and abs(secs(ymd(hi)) / 86400. - ww.max()) < 1.01 / 86400 + tol,
                'coord-range', lambda: '%s: range %s %s' % (t.desc, lo, hi))
    t.mark('coord')
    if mask is not None:
        t.mark('masked')
    if mask is None and r.random() < 0.5:
        n = int(np.prod(shape))
        ll = [gen.coord(k, r.uniform(0, 9, n).reshape(shape)) for k in ('latitude', 'longitude')]
        o = UngriddedData(r.uniform(0, 1, n).reshape(shape), Metadata('v', shape=shape), CoordList(ll + [c]))
        compare(t, o.coord('time').data, w, 'coord-in-data', t.desc, tol)
        compare(t, [p.time for p in o.get_all_points()], np.ravel(w), 'coord-points-in-data', t.desc, tol)


def c_cube(t, r):
    from iris.coords import DimCoord, AuxCoord
    from cis.data_io.gridded_data import GriddedData
    from cis.time_util import convert_cube_time_coord_to_standard_time
    from cf_units import Unit
    nt = int(r.integers(1, 6))
    u, ref, cal, us = ref_unit(r)
    start = rand_date(r)
    step = int(r.choice([60, 3600, 21600, 86400, 86400 * 30]))
    dates = np.array([start + D.timedelta(seconds=i * step) for i in range(nt)], object)
    if r.random() < 0.25:
        dates = dates[::-1]
    if u == 'days' and step < 86400:
        u2 = u
    num, x, tol, k = as_type(r, number(dates, u, ref), u)
    if num.size > 1 and np.any(np.diff(num.astype(float)) == 0):
        num = number(dates, u, ref)
        x, tol, k = num, np.spacing(np.abs(num)) * SCALE[u] / 86400 + TOL, 'f8'
    aux = r.random() < 0.35
    twod = aux and r.random() < 0.5
    bnd = r.random() < 0.5
    b = None
    if bnd:
        h = step / SCALE[u] / 2.
        b = np.stack([np.asarray(num, float) - h, np.asarray(num, float) + h], -1)
        if not np.all(np.diff(np.asarray(num, float)) >= 0):
            b = b[:, ::-1]
    other = gen.axis(r, 'latitude', int(r.integers(2, 5)))
    tpos = int(r.integers(0, 2))
    shape = (nt, len(other['points'])) if tpos == 0 else (len(other['points']), nt)
    unit = Unit(us, calendar=cal)
    att = dict(standard_name='time', var_name='tt', units=unit, attributes={'origin': 'x'}, long_name='time of it')
    vals = np.ma.masked_array(r.uniform(0, 9, shape), r.random(shape) < 0.2)
    t.describe('cube %r %s %s nt=%d aux=%s 2d=%s bounds=%s tpos=%d' % (us, cal, k, nt, aux, twod, bnd, tpos))
    g = GriddedData(vals.copy(), var_name='v', units='K', dim_coords_and_dims=[(gen.dim_coord(other), 1 - tpos)])
    if twod:
        p = np.asarray(num, float)[:, None] + np.arange(shape[1 - tpos])[None] * (3600. / SCALE[u])
        if tpos == 1:
            p = p.T
        w = p * SCALE[u] / 86400. + secs(ref) / 86400.
        bb = np.stack([p, p + 1.], -1) if bnd else None
        wb = None if bb is None else bb * SCALE[u] / 86400. + secs(ref) / 86400.
        tol = TOL + np.spacing(np.abs(p).max()) * SCALE[u] / 86400.
        g.add_aux_coord(AuxCoord(p, bounds=bb, **att), (0, 1))
    else:
        w = x * SCALE[u] / 86400. + secs(ref) / 86400.
        wb = None if b is None else b * SCALE[u] / 86400. + secs(ref) / 86400.
        c = (AuxCoord if aux else DimCoord)(num, bounds=b, **att)
        if aux:
            g.add_aux_coord(c, tpos)
        else:
            g.add_dim_coord(c, tpos)
        tol = np.max(tol)
    if r.random() < 0.5:
        g.add_aux_coord(AuxCoord(np.arange(nt) * 1.0, long_name='step'), tpos)
    extra = sorted(c.name() for c in g.coords())
    if r.random() < 0.5:
        g.coord('time').points
        g.get_coordinates_points()
        t.mark('views')
    out = convert_cube_time_coord_to_standard_time(g)
    c = out.coord(standard_name='time')
    compare(t, c.points, w, 'cube-points', t.desc, tol)
    if wb is not None:
        t.check(c.bounds is not None, 'cube-bounds-lost', t.desc)
        compare(t, c.bounds, wb, 'cube-bounds', t.desc, tol + TOL)
    else:
        t.check(c.bounds is None, 'cube-bounds-added', t.desc)
    std_units(t, c, 'cube-units')
    t.check((c.var_name, c.long_name, c.attributes.get('origin')) == ('tt', 'time of it', 'x'), 'cube-coord-names', t.desc)
    t.check(out.coord_dims(c) == ((0, 1) if twod else (tpos,)), 'cube-coord-dims', lambda: '%s: %s' % (t.desc, out.coord_dims(c)))
    t.check(bool(out.coords(standard_name='time', dim_coords=True)) == (not aux), 'cube-coord-kind', t.desc)
    t.check(sorted(q.name() for q in out.coords()) == extra, 'cube-coords', t.desc)
    t.check(gen.compatible(out.data, vals, 0, 0), 'cube-data', t.desc)
    pts = out.get_all_points()
    flat = np.broadcast_to(w, shape) if twod else np.broadcast_to(w[:, None] if tpos == 0 else w[None], shape)
    if not twod and not aux:
        got = [pts[i].time for i in range(len(pts))]
        compare(t, got, flat.ravel(), 'cube-hyperpoints', t.desc, tol)
    # converting again must not move anything
    out = convert_cube_time_coord_to_standard_time(out)
    compare(t, out.coord(standard_name='time').points, w, 'cube-twice', t.desc, tol)
    t.mark('cube')


def c_year(t, r):
    from cis.time_util import change_year_of_ungridded_data, set_year
    n = int(r.integers(1, 9))
    dates = rand_array(r, (n,))
    if r.random() < 0.4:
        dates[int(r.integers(0, n))] = D.datetime(int(r.choice([1996, 2000, 2004])), 2, 29, 5)
    year = int(r.integers(1700, 2190))
    t.describe('year %d of %s' % (year, [str(d) for d in dates]))
    w = []
    for d in dates:
        try:
            e = d.replace(year=year)
        except ValueError:
            e = None
        t.check(set_year(d, year) == e, 'set-year', t.desc)
        w.append(e)
    o = gen.ungridded({'latitude': r.uniform(0, 9, n), 'longitude': r.uniform(0, 9, n), 'time': want(dates)}, r.uniform(0, 1, n))
    if r.random() < 0.5:
        o.coord('time').data_flattened
    change_year_of_ungridded_data(o, year)
    # points left without a date have no time any more, and are dropped
    ww = np.array([secs(e) / 86400. for e in w if e is not None])
    t.check(len(o.coord('latitude').data) == len(ww) == len(o.data), 'change-year-points', t.desc)
    for nm in ('data', 'data_flattened'):
        compare(t, getattr(o.coord('time'), nm), ww, 'change-year', t.desc)
    if any(e is None for e in w):
        t.mark('leap-day-lost')
    t.mark('year')


PAIRS = [('km', 'm', 1000., 0.), ('hPa', 'Pa', 100., 0.), ('degC', 'K', 1., 273.15), ('m', 'km', 1e-3, 0), ('1', '%', 100., 0.),
         ('g', 'kg', 1e-3, 0), ('feet', 'm', 0.3048, 0.), ('K', 'degC', 1., -273.15)]


def c_units(t, r):
    from cis.data_io.Coord import Coord
    from cis.data_io.ungridded_data import Metadata, UngriddedData
    from cf_units import Unit
    shape = [(4,), (3, 4), (4, 3), (2, 3, 2)][int(r.integers(0, 4))]
    k = str(r.choice(['f8', 'f8', 'f4', 'i4', 'i8']))
    a, b, f, off = PAIRS[int(r.integers(0, len(PAIRS)))]
    v = np.round(r.uniform(-400, 400, shape) * 4) / 4
    v = v.astype(k)
    order = str(r.choice(['C', 'F', 'slice']))
    if order == 'F':
        v = np.asfortranarray(v)
    elif order == 'slice':
        v = np.repeat(v, 2, axis=0)[::2]
    mask = rand_mask(r, shape)
    inp = np.ma.masked_array(v.copy(), mask) if mask is not None else v
    timeu = r.random() < 0.3
    w = v.astype(float) * f + off
    ua, ub = a, b
    if timeu:
        ua, ub = 'days since 2000-01-01 00:00:00', 'hours since 1990-06-01 12:00:00'
        w = v.astype(float) * 24 + (secs(D.datetime(2000, 1, 1)) - secs(D.datetime(1990, 6, 1, 12))) / 3600.
    w = np.ma.masked_array(w, mask) if mask is not None else w
    t.describe('convert_units %s -> %s %s %s order=%s mask=%s' % (ua, ub, k, shape, order, mask is not None))
    md = Metadata(name='q', shape=shape, units=ua)
    if r.random() < 0.5:
        o = Coord(inp, md, 'Z')
    else:
        n = int(np.prod(shape))
        cl = {q: r.uniform(0, 9, n).reshape(shape) for q in ('latitude', 'longitude')}
        o = gen.ungridded(cl, inp, units=ua)
    seen = look(t, r, o)
    o.convert_units(Unit(ub) if r.random() < 0.5 else ub)
    rel = 1e-6 if k == 'f4' else 1e-12
    for nm, ww in (('data', w), ('data_flattened', np.ma.asarray(w).ravel())):
        t.check(gen.compatible(getattr(o, nm), ww, rel, rel * 1e3 * max(1., f)), 'convert-units-' + nm,
                lambda: '%s (views %s): %s %s want %s' % (t.desc, seen, nm, getattr(o, nm), ww))
    t.check(o.units == Unit(ub), 'convert-units-unit', lambda: '%s: %s' % (t.desc, o.units))
    try:
        o.convert_units('V')
        t.fail('convert-units-incompatible', t.desc)
    except ValueError:
        t.check(gen.compatible(o.data, w, rel, rel * 1e3 * max(1., f)) and o.units == Unit(ub), 'convert-units-failed-changed', t.desc)
    t.mark('units')


def c_calendar(t, r):
    from cis.time_util import convert_time_since_to_std_time
    from cf_units import Unit
    cal = str(r.choice(['360_day', '365_day', 'noleap', 'all_leap', '366_day']))
    ml = {'360_day': [30] * 12, '365_day': [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]}
    ml['noleap'] = ml['365_day']
    ml['all_leap'] = ml['366_day'] = [31, 29] + ml['365_day'][2:]
    L = ml[cal]
    y0 = int(r.integers(1850, 2050))
    n = int(r.integers(1, 5))
    out, nums, bad = [], [], False
    for _ in range(n):
        y, m = y0 + int(r.integers(0, 60)), int(r.integers(0, 12))
        d = int(r.integers(1, L[m] + 1)) if r.random() < 0.5 else int(r.choice([1, 15, min(28, L[m])]))
        s = int(r.integers(0, 86400))
        nums.append(((y - y0) * sum(L) + sum(L[:m]) + d - 1) + s / 86400.)
        try:
            out.append(D.datetime(y, m + 1, d) + D.timedelta(seconds=s))
        except ValueError:
            bad = True
    t.describe('calendar %s since %d: %s' % (cal, y0, nums))
    try:
        got = convert_time_since_to_std_time(np.array(nums), Unit('days since %d-01-01' % y0, calendar=cal))
    except ValueError:
        t.check(bad, 'calendar-refused', t.desc)
        t.mark('calendar-refused')
        return
    t.check(not bad, 'calendar-impossible-date', lambda: '%s: %s' % (t.desc, got))
    if not bad:
        compare(t, got, want(np.array(out, object)), 'calendar-date', t.desc)
        t.mark('calendars')


def c_month(t, r):
    from cis.time_util import find_last_day_of_month, calculate_mid_time
    import calendar
    y, m = int(r.integers(1600, 2200)), int(r.integers(1, 13))
    if r.random() < 0.5:
        y, m = int(r.choice([1600, 1700, 1800, 1900, 2000, 2004, 2100])), 2
    t.describe('month %d-%d' % (y, m))
    t.check(find_last_day_of_month(y, m) == calendar.monthrange(y, m)[1], 'last-day', t.desc)
    a, b = rand_date(r), rand_date(r)
    x, z = secs(a) / 86400., secs(b) / 86400.
    t.check(abs(calculate_mid_time(x, z) - (secs(a) + secs(b)) / 172800.) < TOL, 'mid-time', '%s %s' % (a, b))
