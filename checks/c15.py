"""C15: reading satellite, aircraft and station files.  Files of every supported format are written with independent libraries (netCDF4, pyhdf, plain
text); values, missing points and coordinates read through cis are compared with what was stored, transformed by the convention of the product."""
import datetime
import os
import re
import numpy as np
import pyhdf.VS
from vmon import gen

CASES = {'quick': 4000, 'thorough': 40000}
CASE_LIMIT = 120
RULE = ('one observation per distinct (product, stored type, fill, valid range, scaling, files, shape, missing coordinates, request) compared in full')
REQUIRED = {'netcdf': 40, 'cloudsat': 30, 'caliop': 30, 'modis2': 25, 'modis3': 10, 'cci': 30, 'gassp': 30, 'aeronet': 25, 'ascii': 15, 'earthcare': 8,
            'values_compared': 8000, 'masked_fill': 200, 'masked_range': 200, 'scaled': 50, 'several_files': 40, 'coordinates_compared': 8000,
            'missing_positions': 10, 'sd': 15, 'gridded': 60, 'aux_field': 30, 'model_cloud': 15, 'model_aerosol': 15, 'model_convsh': 15, 'model_pp': 15,
            'broken_times': 1, 'aeronet_wavelengths': 8}
ASSUMPTIONS = ['scale factors and offsets are floating-point numbers', 'leap seconds are not applied to TAI times, as the code documents',
               'the order of file attributes and of HDF objects follows the layout of the real products', 'CALIOP UInt_8 data (fill value -127) is not judged']
EPOCH = datetime.datetime(1600, 1, 1)


def std(dt):
    return gen.days(dt)


class Tol(float):
    atol = None


def atol(tol):
    return getattr(tol, 'atol', None) or tol * 3000


class Stored(object):
    """a stored array with its attributes, and what it means"""

    def __init__(self, t, r, shape, dtype=None, scale=None, offset=None, conv='netcdf', fill=None, vrange=None, lo=-3000, hi=3000, missop=False, plain=False):
        self.dtype = np.dtype(dtype or str(r.choice(['i2', 'i4', 'f4', 'f8', 'i2'])))
        d = self.dtype
        if d.kind == 'f':
            v = (r.integers(lo * 4, hi * 4, shape) / 4.).astype(d)
        else:
            v = r.integers(lo, hi, shape).astype(d)
        self.fill = None
        miss = np.zeros(shape, bool)
        if fill is not False and not plain and (fill is not None or r.random() < .7):
            self.fill = fill if fill is not None else d.type(r.choice([-9999, -999, -32767 if d != np.dtype('i1') else -127, 32767, 0]))
            m = r.random(shape) < float(r.choice([.0, .1, .4]))
            v[m] = self.fill
            miss |= v == self.fill
        self.range = None
        out = np.zeros(shape, bool)
        if vrange is not False and not plain and r.random() < .6:
            a, b = sorted(int(x) for x in r.integers(lo, hi, 2))
            if r.random() < .5:
                a, b = lo, max(b, 0)
            if r.random() < .3 and v.size and np.size(v):
                a = int(np.ravel(v)[0]) if lo <= np.ravel(v)[0] <= b else a     # a limit that occurs: inclusive
            self.range = (d.type(a), d.type(b))
            out = (v < self.range[0]) | (v > self.range[1])
        self.missop = None
        if missop and not plain and r.random() < .5:
            op = str(r.choice(['<', '<=', '==', '>']))
            lim = d.type(int(np.ravel(v)[0])) if v.size and r.random() < .5 else d.type(int(r.integers(lo, hi)))
            self.missop = (op, lim)
            mm = {'<': v < lim, '<=': v <= lim, '==': v == lim, '>': v > lim}[op]
            miss |= mm
        self.stored, self.mask = v, miss | out
        self.n_fill, self.n_range = int(miss.sum()), int((out & ~miss).sum())
        self.scale = self.offset = None
        if not plain and scale is not False and r.random() < .6:
            self.scale = float(r.choice([.01, .5, 2., 100., .001, 1.]))
        if not plain and offset is not False and r.random() < .5:
            self.offset = float(r.choice([0., 5., -273.15, 1000.]))
        s, o = self.scale if self.scale is not None else 1., self.offset if self.offset is not None else 0.
        w = v.astype(float)
        if conv == 'netcdf':
            w = w * s + o
        elif conv == 'caliop':
            w = w / s + o
        elif conv == 'cloudsat':
            w = (w - o) / s
        elif conv == 'modis':
            w = (w - o) * s
        self.want = np.ma.masked_array(w, mask=self.mask.copy())
        self.tol = 3e-7 if d == np.dtype('f4') else 1e-12
        # rounding of the intermediate result, in the units of the final one
        self.tol = Tol(self.tol)
        self.tol.atol = float(self.tol) * (4000 * (s if conv in ('netcdf', 'modis') else 1 / s) + abs(o) * (conv in ('netcdf', 'caliop')))

    def sig(self):
        return (self.dtype.str, self.fill is not None, self.range is not None, self.missop and self.missop[0], self.scale, self.offset)

    def mark(self, t):
        t.mark('masked_fill', self.n_fill)
        t.mark('masked_range', self.n_range)
        if self.scale not in (None, 1.) or self.offset not in (None, 0.):
            t.mark('scaled')

    def like(self, t, r, shape, conv, lo=-3000, hi=3000):
        """another array of the same variable (the next file): same attributes"""
        o = Stored.__new__(Stored)
        d = self.dtype
        v = ((r.integers(lo * 4, hi * 4, shape) / 4.).astype(d) if d.kind == 'f' else r.integers(lo, hi, shape).astype(d))
        miss, out = np.zeros(shape, bool), np.zeros(shape, bool)
        if self.fill is not None:
            m = r.random(shape) < .2
            v[m] = self.fill
            miss |= v == self.fill
        if self.range is not None:
            out = (v < self.range[0]) | (v > self.range[1])
        if self.missop:
            op, lim = self.missop
            miss |= {'<': v < lim, '<=': v <= lim, '==': v == lim, '>': v > lim}[op]
        o.__dict__.update(dtype=d, fill=self.fill, range=self.range, missop=self.missop, scale=self.scale, offset=self.offset, stored=v, mask=miss | out,
                          n_fill=int(miss.sum()), n_range=int((out & ~miss).sum()), tol=self.tol)
        s, f = self.scale if self.scale is not None else 1., self.offset if self.offset is not None else 0.
        w = v.astype(float)
        w = {'netcdf': w * s + f, 'caliop': w / s + f, 'cloudsat': (w - f) / s, 'modis': (w - f) * s}[conv]
        o.want = np.ma.masked_array(w, mask=o.mask.copy())
        return o


def family(t, r, shapes, conv, **kw):
    first = Stored(t, r, shapes[0], conv=conv, **kw)
    lo, hi = kw.get('lo', -3000), kw.get('hi', 3000)
    fam = [first] + [first.like(t, r, s, conv, lo, hi) for s in shapes[1:]]
    for f in fam:
        f.mark(t)
    return fam


def compare(t, what, data, want, tol, coords=()):
    """data: cis object; want: masked array; coords: (standard name, plain or masked array, atol). Points without a position are dropped."""
    want = np.ma.masked_array(want)
    drop = np.zeros(want.shape, bool)
    for k, w, _ in coords:
        drop |= np.ma.getmaskarray(np.ma.asarray(w)).reshape(want.shape)
        if np.ma.asarray(w).dtype.kind == 'f':
            drop |= np.isnan(np.ma.getdata(w).astype(float)).reshape(want.shape)
    t.mark('missing_positions', int(drop.sum()))
    w = want[~drop] if drop.any() else want.ravel()
    d = np.ma.asarray(data.data).ravel()
    if not t.check(d.shape == w.shape, what + '-count', lambda: '%s: %s points, want %s (%s dropped)' % (t.desc, d.shape, w.shape, drop.sum())):
        return False
    if not drop.any():
        t.check(np.asarray(data.data).size == want.size, what + '-shape', t.desc)
    gm, wm = np.ma.getmaskarray(d), np.ma.getmaskarray(w)
    t.mark('values_compared', int(w.size))
    ok = t.check(np.array_equal(gm, wm), what + '-missing', lambda: '%s: missing %s want %s; first %s' % (t.desc, gm.sum(), wm.sum(), np.flatnonzero(gm != wm)[:4]))
    a, b = np.ma.getdata(d)[~(gm | wm)].astype(float), np.ma.getdata(w)[~(gm | wm)]
    ok &= t.check(np.allclose(a, b, rtol=tol, atol=atol(tol), equal_nan=True), what + '-values', lambda: '%s: %s want %s' % (t.desc, a[~np.isclose(a, b, rtol=tol, atol=atol(tol))][:4], b[~np.isclose(a, b, rtol=tol, atol=atol(tol))][:4]))
    for k, wc, ctol in coords:
        try:
            c = data.coord(standard_name=k)
        except Exception as e:
            t.fail(what + '-coordinate', '%s: no %s: %s' % (t.desc, k, e))
            continue
        g = np.ma.asarray(c.data).ravel()
        x = np.ma.getdata(np.ma.asarray(wc)).reshape(want.shape)[~drop] if drop.any() else np.ma.getdata(np.ma.asarray(wc)).ravel()
        t.mark('coordinates_compared', int(x.size))
        t.check(g.shape == x.shape and np.allclose(np.ma.getdata(g).astype(float), x.astype(float), rtol=0, atol=ctol), what + '-' + k,
                lambda: '%s: %s want %s' % (t.desc, np.ma.getdata(g)[:5], x[:5]))
        t.check(not np.ma.getmaskarray(g).any(), what + '-masked-position', t.desc)
    return ok


# ------------------------------------------------------------------ netCDF

def nc_attrs(v, s, r, unusual=False):
    if s.missop:
        raise AssertionError
    if s.range is not None:
        how = str(r.choice(['range', 'minmax', 'min', 'max'])) if s.range else None
        if how == 'range':
            v.valid_range = np.array(s.range)
        elif how == 'minmax':
            v.valid_min, v.valid_max = s.range
    if s.scale is not None:
        v.scale_factor = s.scale
    if s.offset is not None:
        v.add_offset = s.offset


def put(f, name, dims, s, r, mode, long_name='some long name', units='K', **attrs):
    """write a Stored with netCDF4, raw. mode: how the fill value and the range are declared."""
    fillkind, rangekind = mode
    kw = {}
    if s.fill is not None and fillkind == '_FillValue':
        kw['fill_value'] = s.fill
    v = f.createVariable(name, s.dtype, dims, **kw)
    v.set_auto_maskandscale(False)
    if s.fill is not None and fillkind == 'missing_value':
        v.missing_value = s.fill
    if s.range is not None:
        if rangekind == 'range':
            v.valid_range = np.array(s.range)
        elif rangekind == 'wide':           # the limits in a wider type than the data
            v.valid_min, v.valid_max = np.float64(s.range[0]), np.float64(s.range[1])
        elif rangekind == 'string':         # limits which are text
            v.valid_min, v.valid_max = str(s.range[0]), str(s.range[1])
        else:
            v.valid_min, v.valid_max = s.range
    if s.scale is not None:
        v.scale_factor = s.scale
    if s.offset is not None:
        v.add_offset = s.offset
    v.units, v.long_name = units, long_name
    for k, x in attrs.items():
        setattr(v, k, x)
    v[:] = s.stored
    return v


def mode(r):
    return str(r.choice(['_FillValue', 'missing_value'])), str(r.choice(['range', 'minmax', 'wide']))


def default_fill(s):
    """netCDF4 treats its own default fill values as missing; keep them out of the stored data"""
    return s


def pos(t, r, n, missing=False, dtype='f4'):
    la = Stored(t, r, n, dtype=dtype, lo=-90, hi=90, fill=-999., vrange=False, scale=False, offset=False)
    lo = Stored(t, r, n, dtype=dtype, lo=-180, hi=180, fill=-999., vrange=False, scale=False, offset=False)
    if not missing:
        for x in (la, lo):
            x.stored[x.mask] = 1
            x.mask[:] = False
            x.want = np.ma.masked_array(x.stored.astype(float))
    return la, lo


def netcdf_case(t, r):
    import netCDF4
    from cis.data_io import netcdf as nc
    t.mark('netcdf')
    shape = tuple(int(x) for x in r.integers(1, 9, int(r.choice([1, 1, 2, 3]))))
    dt = str(r.choice(['i1', 'i2', 'i4', 'f4', 'f8', 'u1', 'u2']))
    lo, hi = {'i1': (-100, 100), 'u1': (0, 250), 'u2': (0, 60000)}.get(dt, (-3000, 3000))
    fill = None
    if dt in ('i1', 'u1', 'u2') or r.random() < .3:
        fill = {'i1': -100, 'u1': 255, 'u2': 65535}.get(dt, False)
        fill = np.dtype(dt).type(fill) if fill is not False else False
    s = Stored(t, r, shape, dtype=dt, lo=lo, hi=hi, fill=fill)
    s.mark(t)
    m = mode(r)
    if r.random() < .1:
        m = (m[0], 'string')
    if r.random() < .1 and s.range is not None and np.dtype(dt).kind in 'iu':
        # limits that the stored type cannot hold limit nothing
        hi2 = {'i1': 300, 'i2': 65535, 'u1': 1000, 'u2': 70000}.get(dt)
        if hi2:
            s.range = (s.range[0], np.int32(hi2))
            miss = s.stored == s.fill if s.fill is not None else np.zeros(shape, bool)
            s.mask = miss | (s.stored < s.range[0])
            s.want = np.ma.masked_array(s.want.data, mask=s.mask)
            m = (m[0], str(r.choice(['minmax', 'range'])))
            if m[1] == 'range':
                s.range = (np.int32(s.range[0]), s.range[1])
    with netCDF4.Dataset(t.path('a.nc'), 'w') as f:
        for i, n in enumerate(shape):
            f.createDimension('d%d' % i, n)
        put(f, 'v', ['d%d' % i for i in range(len(shape))], s, r, m)
    t.describe('netcdf %s %s fill %s %s range %s %s' % (dt, shape, s.fill, m, s.range, (s.scale, s.offset)))
    v = nc.read(t.path('a.nc'), ['v'])['v']
    d = np.ma.asarray(nc.get_data(v))
    t.check(d.shape == s.want.shape, 'netcdf-shape', t.desc)
    gm, wm = np.ma.getmaskarray(d), np.ma.getmaskarray(s.want)
    t.mark('values_compared', int(d.size))
    t.check(np.array_equal(gm, wm), 'netcdf-missing', lambda: '%s: %s want %s' % (t.desc, d, s.want))
    t.check(np.allclose(np.ma.getdata(d)[~wm].astype(float), np.ma.getdata(s.want)[~wm], rtol=s.tol, atol=atol(s.tol)), 'netcdf-values', lambda: '%s: %s want %s' % (t.desc, d, s.want))
    md = nc.get_metadata(v)
    t.check(md._name == 'v' and md.long_name == 'some long name' and str(md.units) == 'K' and md.shape == shape, 'netcdf-metadata', t.desc)
    if s.fill is not None:
        t.check(md.missing_value == s.fill, 'netcdf-missing-value', t.desc)
    t.seen('netcdf', s.sig(), m, len(shape))


def cci_case(t, r):
    import netCDF4
    import cis
    t.mark('cci')
    cloud = r.random() < .5
    nf = int(r.choice([1, 1, 2, 3]))
    ns = [int(x) for x in r.integers(1, 40, nf)]
    fam = family(t, r, [(n,) for n in ns], 'netcdf', dtype=str(r.choice(['i2', 'f4', 'f8', 'i4'])))
    m, names = mode(r), [('lon', 'lat'), ('longitude', 'latitude')][int(r.integers(0, 2))]
    missing = r.random() < .3
    files, las, los, ts = [], [], [], []
    for i, n in enumerate(ns):
        p = t.path('2008%02d-ESACCI-L2%s-x.nc' % (i + 1, '_CLOUD' if cloud else 'P_AEROSOL'))
        files.append(p)
        la, lo = pos(t, r, n, missing)
        t0 = datetime.datetime(2008, 1 + i, int(r.integers(1, 28)))
        secs = np.round(np.sort(r.uniform(0, 86400, n)), 2)
        want_t = std(t0) + secs / 86400
        if cloud:
            raw = want_t - std(datetime.datetime(2000, 1, 1, 12)) + 2451545.   # J2000.0 is JD 2451545.0
        else:
            raw = (t0 - datetime.datetime(1970, 1, 1)).total_seconds() + secs
        with netCDF4.Dataset(p, 'w') as f:
            f.createDimension('pixel_number', n)
            f.source = 'ESA'
            put(f, names[0], ['pixel_number'], lo, r, ('_FillValue', None), units='degrees_east', standard_name='longitude')
            put(f, names[1], ['pixel_number'], la, r, ('_FillValue', None), units='degrees_north', standard_name='latitude')
            q = f.createVariable('time', 'f8', ['pixel_number'])
            q.units = 'Julian Date, days elapsed since 12:00 January 1, 4713 BC' if cloud else 'seconds since 1970-01-01 00:00:00'
            q.standard_name = 'time'
            q[:] = raw
            put(f, 'aod', ['pixel_number'], fam[i], r, m)
        las.append(la.want), los.append(lo.want), ts.append(want_t)
    if nf > 1:
        t.mark('several_files')
    t.describe('CCI %s %s files %s %s' % ('cloud' if cloud else 'aerosol', ns, fam[0].sig(), m))
    cat = np.ma.concatenate
    coords = [('latitude', cat(las), 1e-5), ('longitude', cat(los), 1e-5), ('time', np.concatenate(ts), 1e-8 if not cloud else 2e-8)]
    d = cis.read_data(files, 'aod')
    compare(t, 'cci', d, cat([s.want for s in fam]), fam[0].tol, coords)
    t.check(str(d.coord(standard_name='time').units) == str(gen.std_time_unit()), 'cci-time-unit', t.desc)
    # the flattened view is what most of cis uses
    t.check(np.array_equal(np.ravel(d.coord(standard_name='time').data_flattened), np.ravel(d.coord(standard_name='time').data)), 'cci-flattened', t.desc)
    t.seen('cci', cloud, nf, fam[0].sig(), m, missing, names[0])


def gassp_case(t, r):
    import netCDF4
    import cis
    t.mark('gassp')
    kind = str(r.choice(['plane', 'ship', 'station', 'ncar']))
    nf = int(r.choice([1, 1, 2, 3]))
    ns = [int(x) for x in r.integers(2, 30, nf)]
    pressure = str(r.choice(['PSXC', 'PRE', 'none', 'both']))
    stamp = kind != 'ncar' and r.random() < .5
    aux = nf == 1 and r.random() < .3
    nb = int(r.integers(2, 6))
    fam = family(t, r, [(n, nb) if aux else (n,) for n in ns], 'netcdf', dtype=str(r.choice(['i2', 'f4', 'f8'])))
    m = mode(r)
    missing = r.random() < .3
    files, las, los, alts, ts, ps = [], [], [], [], [], []
    bins = np.sort(r.choice(np.arange(1, 100), nb, False)).astype(float)
    auxname = str(r.choice(['bins', 'diameter']))
    aux3 = aux and r.random() < .3
    for i, n in enumerate(ns):
        p = t.path('camp_%d.nc' % i)
        files.append(p)
        la, lo = pos(t, r, n, missing and kind in ('plane', 'ship', 'ncar'), 'f8')
        al = np.round(r.uniform(0, 9000, n), 1)
        pr = np.round(r.uniform(200, 1000, n), 1)
        t0 = datetime.datetime(2001 + i, int(r.integers(1, 13)), int(r.integers(1, 28)), int(r.integers(0, 24)))
        secs = np.sort(r.choice(np.arange(80000), n, False)).astype(float)
        per = float(r.choice([1., 60., 3600., 86400.]))
        unit = {1.: 'seconds', 60.: 'minutes', 3600.: 'hours', 86400.: 'days'}[per]
        slat, slon, salt = float(r.integers(-90, 90)) + .25, float(r.integers(-180, 180)) + .5, float(r.integers(0, 3000))
        with netCDF4.Dataset(p, 'w') as f:
            f.createDimension('Time', n)
            if kind == 'ncar':
                f.Conventions = 'NCAR-RAF/nimbus'
                f.Coordinates = 'LONC LATC GALT Time'
            else:
                f.GASSP_Version = '1.2'
                f.Time_Coordinate = 'Time'
            nt, nla, nlo, nal = 'Time', 'LATC', 'LONC', 'GALT'
            if kind in ('plane', 'ship'):
                f.Latitude_Coordinate, f.Longitude_Coordinate = nla, nlo
                if kind == 'plane':
                    f.Vertical_Coordinate = nal
            elif kind == 'station':
                style = int(r.integers(0, 3))
                f.Station_Lat = [str(slat), slat, '%s degrees north' % slat][style]
                f.Station_Lon = [str(slon), slon, '%s degrees east' % slon][style]
                if salt > 600:
                    f.Station_Altitude = [str(salt), salt, '%s m asl' % salt][style]
                else:
                    salt = 0.
            q = f.createVariable(nt, 'f8', ['Time'])
            if stamp:
                q.units = unit.capitalize() if r.random() < .2 else '%s from the file time reference' % unit
                f.Time_Stamp_Info = t0.strftime('%Y-%m-%d %H:%M:%S')
            else:
                q.units = '%s since %s' % (unit, t0.strftime('%Y-%m-%d %H:%M:%S'))
            q[:] = secs / per
            if kind != 'station':
                put(f, nla, ['Time'], la, r, ('_FillValue', None), units='degrees_north')
                put(f, nlo, ['Time'], lo, r, ('_FillValue', None), units='degrees_east')
            if kind in ('plane', 'ncar'):
                q = f.createVariable(nal, 'f8', ['Time'])
                q.units = 'm'
                q[:] = al
            for nm in (['PSXC', 'PRE'] if pressure == 'both' else [] if pressure == 'none' else [pressure]):
                q = f.createVariable(nm, 'f8', ['Time'])
                q.units = 'hPa'
                q[:] = pr if nm == 'PSXC' or pressure != 'both' else pr + 7
            dims = ['Time']
            if aux:
                f.createDimension('bins', nb)
                q = f.createVariable(auxname, 'f8', ['bins'])
                q.units = 'um'
                q[:] = bins
                dims = ['Time', 'bins']
                if aux3:
                    q = f.createVariable('flag', 'i4', [])       # a variable without dimensions is no coordinate
                    q[:] = 3
            put(f, 'conc', dims, fam[i], r, m, units='cm-3')
        if kind == 'station':
            las.append(np.full(n, slat)), los.append(np.full(n, slon)), alts.append(np.full(n, salt))
        else:
            las.append(la.want), los.append(lo.want), alts.append(al if kind in ('plane', 'ncar') else np.zeros(n))
        ts.append(std(t0) + secs / 86400)
        ps.append(pr)
    if nf > 1:
        t.mark('several_files')
    t.describe('GASSP %s %s stamp %s pressure %s aux %s %s %s' % (kind, ns, stamp, pressure, aux and (auxname, nb, aux3), fam[0].sig(), m))
    cat = np.ma.concatenate
    ex = (lambda x: np.ma.repeat(np.ma.asarray(x)[:, None], nb, axis=1)) if aux else (lambda x: x)
    coords = [('latitude', ex(cat(las)), 1e-9), ('longitude', ex(cat(los)), 1e-9), ('altitude', ex(cat(alts)), 1e-9), ('time', ex(cat(ts)), 2e-8)]
    if pressure != 'none':
        coords.append(('air_pressure', ex(cat(ps)), 1e-9))
    coords = [(k, np.ma.masked_array(c) if not isinstance(c, np.ma.MaskedArray) else c, a) for k, c, a in coords]
    d = cis.read_data(files, 'conc')
    compare(t, 'gassp', d, cat([s.want for s in fam]), fam[0].tol, coords)
    if aux:
        drop = np.zeros((sum(ns), nb), bool)
        for k, c, a in coords:
            drop |= np.ma.getmaskarray(c)
        c = [x for x in d.coords() if x.var_name == auxname]
        if t.check(len(c) == 1, 'gassp-aux', lambda: '%s: %s' % (t.desc, [x.name() for x in d.coords()])):
            t.check(np.array_equal(np.ravel(c[0].data), np.repeat(bins[None], sum(ns), 0)[~drop].ravel()), 'gassp-aux-values', t.desc)
    else:
        vs = cis.get_variables(files)
        t.check('conc' in vs, 'gassp-variables', lambda: '%s: %s' % (t.desc, vs))
    t.seen('gassp', kind, nf, stamp, pressure, aux, fam[0].sig(), m, missing)


# ------------------------------------------------------------------ HDF4
HDFT = {'i1': 'INT8', 'u1': 'UINT8', 'i2': 'INT16', 'u2': 'UINT16', 'i4': 'INT32', 'f4': 'FLOAT32', 'f8': 'FLOAT64'}


def sd_put(sd, name, s, dims=None, fillname='_FillValue', rangestyle='list', names=('scale_factor', 'add_offset'), **attrs):
    from pyhdf.SD import SDC
    ty = getattr(SDC, HDFT[s.dtype.str[1:]])
    v = sd.create(name, ty, s.stored.shape)
    if dims:
        for i, d in enumerate(dims):
            v.dim(i).setname(d)
    py = (float if s.dtype.kind == 'f' else int)
    if s.fill is not None and fillname:
        v.attr(fillname).set(ty, py(s.fill))
    if s.missop:
        v.attr('missop').set(SDC.CHAR, s.missop[0])
        v.attr('missing').set(ty, py(s.missop[1]))
    if s.range is not None:
        if rangestyle == 'list':
            v.attr('valid_range').set(ty, [py(s.range[0]), py(s.range[1])])
        else:
            v.attr('valid_range').set(SDC.CHAR, '%s...%s' % (py(s.range[0]), py(s.range[1])))
    if s.scale is not None:
        v.attr(names[0]).set(SDC.FLOAT64, s.scale)
    if s.offset is not None:
        v.attr(names[1]).set(SDC.FLOAT64, s.offset)
    for k, x in attrs.items():
        v.attr(k).set(SDC.CHAR, x)
    v[:] = s.stored
    v.endaccess()


def vd_put(vs, name, s, **attrs):
    from pyhdf.HDF import HC
    ty = getattr(HC, HDFT[s.dtype.str[1:]].replace('CHAR', 'CHAR8'))
    vd = vs.create(name, ((name, ty, 1),))
    py = (float if s.dtype.kind == 'f' else int)
    vd.write([[py(x)] for x in s.stored])
    if s.fill is not None:
        vd.attr('missing').set(ty, py(s.fill))
    if s.range is not None:
        vd.attr('valid_range').set(ty, [py(s.range[0]), py(s.range[1])])
    if s.scale is not None:
        vd.attr('factor').set(HC.FLOAT64, s.scale)
    if s.offset is not None:
        vd.attr('offset').set(HC.FLOAT64, s.offset)
    for k, x in attrs.items():
        vd.attr(k).set(HC.CHAR8, x)
    vd.detach()


class plainarr(Stored):
    def __init__(self, a, dtype=None):
        self.stored = np.asarray(a, dtype)
        self.dtype, self.fill, self.range, self.missop, self.scale, self.offset = self.stored.dtype, None, None, None, None, None
        self.mask = np.zeros(self.stored.shape, bool)
        self.want = np.ma.masked_array(self.stored.astype(float))


def cloudsat_case(t, r):
    from pyhdf.HDF import HDF, HC
    from pyhdf.SD import SD, SDC
    import cis
    t.mark('cloudsat')
    nf = int(r.choice([1, 1, 2, 3]))
    ns = [int(x) for x in r.integers(2, 12, nf)]
    nb = int(r.integers(2, 8))
    has_height = r.random() < .8
    missing = r.random() < .3
    fam2 = family(t, r, [(n, nb) for n in ns], 'cloudsat', missop=True, dtype=str(r.choice(['i2', 'f4', 'i4']))) if has_height else None
    fam1 = family(t, r, [(n,) for n in ns], 'cloudsat', dtype=str(r.choice(['i2', 'f4', 'i4'])))
    files, las, los, ts, hs = [], [], [], [], []
    for i, n in enumerate(ns):
        p = t.path('2008%03d000000_12345_CS_2B-X_GRANULE_P_R04_E02.hdf' % (i + 1))
        files.append(p)
        la, lo = pos(t, r, n, False)
        if missing and i == 0:
            for x in (la, lo):
                x.fill = np.float32(-999.)
                x.stored[0] = -999.
                x.want = np.ma.masked_array(x.stored.astype(float), mask=x.stored == -999)
        else:
            if missing:
                pass
            else:
                la.fill = lo.fill = None
        start = float(r.integers(0, 500000000)) + .5
        prof = np.round(np.cumsum(r.uniform(.1, .3, n)), 3).astype('f4')
        h = (500. * np.arange(nb)[None, ::-1] + r.integers(0, 100, (n, 1))).astype('i2')
        hh = plainarr(h)
        if missing and n > 2 and r.random() < .6:
            hh.fill = np.int16(-9999)
            hh.stored[1, 0] = -9999
            hh.want = np.ma.masked_array(hh.stored.astype(float), mask=hh.stored == -9999)
        f = HDF(p, HC.WRITE | HC.CREATE)
        vs = f.vstart()
        vd_put(vs, 'Latitude', la, long_name='Spacecraft Latitude', units='degrees')
        vd_put(vs, 'Longitude', lo, long_name='Spacecraft Longitude', units='degrees')
        vd_put(vs, 'Profile_time', plainarr(prof), units='seconds')
        vd_put(vs, 'TAI_start', plainarr([start], 'f8'), units='seconds')
        vd_put(vs, 'Surf', fam1[i], long_name='surface', units='K')
        vs.end()
        f.close()
        sd = SD(p, SDC.WRITE)
        if has_height:
            sd_put(sd, 'Height', hh, long_name='Height', units='m')
            sd_put(sd, 'Prof', fam2[i], names=('factor', 'offset'), long_name='profile', units='K')
        else:
            sd_put(sd, 'Other', plainarr(np.zeros((3, 2), 'f4')))
        sd.end()
        las.append(la.want), los.append(lo.want), hs.append(hh.want)
        ts.append(std(datetime.datetime(1993, 1, 1)) + (prof.astype(float) + start) / 86400)
    if nf > 1:
        t.mark('several_files')
    cat = np.ma.concatenate
    if has_height and r.random() < .7:
        t.describe('CloudSat profile %s x %s %s' % (ns, nb, fam2[0].sig()))
        ex = lambda x: np.ma.repeat(np.ma.asarray(x)[:, None], nb, axis=1)
        coords = [('latitude', ex(cat(las)), 1e-5), ('longitude', ex(cat(los)), 1e-5), ('altitude', cat(hs), 1e-3), ('time', ex(np.concatenate(ts)), 1e-8)]
        d = cis.read_data(files, 'Prof')
        got = {c.name(): c for c in d.coords()}
        compare(t, 'cloudsat', Names(d, {'latitude': 'Latitude', 'longitude': 'Longitude', 'altitude': 'Height', 'time': 'Profile_time'}), cat([s.want for s in fam2]), fam2[0].tol, coords)
        t.seen('cloudsat2', nf, fam2[0].sig(), missing)
    else:
        t.describe('CloudSat along track %s %s' % (ns, fam1[0].sig()))
        d = cis.read_data(files, 'Surf')
        coords = [('latitude', cat(las), 1e-5), ('longitude', cat(los), 1e-5), ('time', np.concatenate(ts), 1e-8)]
        compare(t, 'cloudsat', Names(d, {'latitude': 'Latitude', 'longitude': 'Longitude', 'time': 'Profile_time'}), cat([s.want for s in fam1]), fam1[0].tol, coords)
        t.seen('cloudsat1', nf, fam1[0].sig(), missing, has_height)
    t.check(str(d.units) == 'K' and d.long_name in ('profile', 'surface'), 'cloudsat-metadata', lambda: '%s %r %r' % (t.desc, d.units, d.long_name))


class Names(object):
    """access to coordinates by variable name where the product sets no standard name of the expected kind"""

    def __init__(self, d, names):
        self.d, self.names, self.data = d, names, d.data

    def coord(self, standard_name):
        for c in self.d.coords():
            if c.var_name == self.names[standard_name]:
                return c
        raise LookupError('%s in %s' % (standard_name, [c.var_name for c in self.d.coords()]))


def caliop_case(t, r):
    from pyhdf.HDF import HDF, HC
    from pyhdf.SD import SD, SDC
    import cis
    t.mark('caliop')
    level = int(r.choice([1, 2]))
    nf = int(r.choice([1, 1, 2]))
    ns = [int(x) for x in r.integers(2, 9, nf)]
    nz = int(r.integers(2, 8))
    kind = 'profile' if level == 1 else str(r.choice(['profile', 'profile', 'column', 'mixed']))
    shapes = [(n, nz) if kind == 'profile' else (n, 1) if kind == 'column' else (n, nz, 2) for n in ns]
    fm = str(r.choice(['Float_32', 'Int_16', 'Int_32']))
    style = str(r.choice(['fillvalue', 'format', '_FillValue']))
    fill = np.dtype({'Float_32': 'f4', 'Int_16': 'i2', 'Int_32': 'i4'}[fm]).type(-9999 if style == 'format' else r.choice([-9999, -333, 32767]))
    if r.random() < .25:
        fill, style = False, 'format'
    fam = family(t, r, shapes, 'caliop', dtype={'Float_32': 'f4', 'Int_16': 'i2', 'Int_32': 'i4'}[fm], fill=fill)
    w = 3 if level == 2 else 1
    idx = 1 if level == 2 else 0
    alt = np.round(np.sort(r.uniform(-2, 30, nz))[::-1], 3).astype('f4')
    missing = r.random() < .3
    files, las, los, ts, ps = [], [], [], [], []
    for i, n in enumerate(ns):
        p = t.path('CAL_LID_L%s-Prov-V3-01.2008-0%d-01T00-00-00ZN.hdf' % ('1' if level == 1 else '2_05kmAPro', i + 1))
        files.append(p)
        la, lo = pos(t, r, (n, w), False)
        if missing:
            for x in (la, lo):
                x.fill = np.float32(-9999.)
                x.stored[int(r.integers(0, n)), :] = -9999
                x.want = np.ma.masked_array(x.stored.astype(float), mask=x.stored == -9999)
        secs = np.round(np.cumsum(r.uniform(.5, 1.5, (n, w)).ravel()).reshape(n, w) + float(r.integers(0, 5e8)), 2)
        pr = plainarr(np.round(r.uniform(10, 1000, (n, nz if level == 2 else 3 + nz)), 1), 'f4')
        f = HDF(p, HC.WRITE | HC.CREATE)
        vs = f.vstart()
        vd = vs.create('metadata', (('Product_ID', HC.CHAR8, 4), ('Lidar_Data_Altitudes', HC.FLOAT32, nz)))
        vd.write([['L2AP', [float(x) for x in alt]]])
        vd.detach()
        vs.end()
        f.close()
        sd = SD(p, SDC.WRITE)
        sd_put(sd, 'Latitude', la, fillname='fillvalue', units='degrees', format='Float_32')
        sd_put(sd, 'Longitude', lo, fillname='fillvalue', units='degrees', format='Float_32')
        sd_put(sd, 'Profile_Time', plainarr(secs, 'f8'), units='seconds', format='Float_64')
        sd_put(sd, 'Pressure', pr, units='hPA', format='Float_32')
        nm = {'profile': 'Extinction', 'column': 'Column_Optical_Depth', 'mixed': 'CAD_Score'}[kind]
        at = {'format': fm} if style == 'format' else {'format': 'Float_64'} if style == '_FillValue' else {}
        sd_put(sd, nm, fam[i], fillname=None if style == 'format' else style, rangestyle='text', units='km-1', **at)
        sd.end()
        las.append(la.want[:, idx]), los.append(lo.want[:, idx]), ps.append(pr.want)
        ts.append(std(datetime.datetime(1993, 1, 1)) + secs[:, idx] / 86400)
    if nf > 1:
        t.mark('several_files')
    nopressure = level == 2 and r.random() < .3
    t.describe('CALIOP L%d %s %s x %s %s %s fill by %s' % (level, kind, ns, nz, fm, fam[0].sig(), style))
    d = cis.read_data(files, nm, product='Caliop_L2_NO_PRESSURE' if nopressure else None)
    cat = np.ma.concatenate
    want = cat([s.want for s in fam])
    if kind == 'column':
        want = want[:, 0]
        coords = [('latitude', cat(las), 1e-5), ('longitude', cat(los), 1e-5), ('time', np.concatenate(ts), 2e-8)]
    else:
        if kind == 'mixed':
            want = want[:, :, 0]
        ex = lambda x: np.ma.repeat(np.ma.asarray(x)[:, None], nz, axis=1)
        coords = [('latitude', ex(cat(las)), 1e-5), ('longitude', ex(cat(los)), 1e-5), ('time', ex(np.concatenate(ts)), 2e-8),
                  ('altitude', np.repeat(alt[None].astype(float) * 1000, len(want), 0), .1)]
        if level == 2 and not nopressure:
            coords.append(('air_pressure', cat(ps), 1e-3))
    if level == 1 or nopressure:
        t.check(not [c for c in d.coords() if c.var_name == 'Pressure'], 'caliop-pressure', t.desc)
    compare(t, 'caliop', Names(d, {'latitude': 'Latitude', 'longitude': 'Longitude', 'time': 'Profile_Time', 'altitude': 'altitude', 'air_pressure': 'Pressure'}), want, fam[0].tol, coords)
    t.seen('caliop', level, kind, nf, fm, style, fam[0].sig(), missing, nopressure)


def modis2_case(t, r):
    from pyhdf.SD import SD, SDC
    import cis
    from cis.data_io.products.MODIS import MODIS_L2
    t.mark('modis2')
    nf = int(r.choice([1, 1, 2, 3]))
    nx = int(r.integers(2, 7))
    nys = [int(x) for x in r.integers(2, 7, nf)]
    three = r.random() < .35
    nb = int(r.integers(2, 4))
    km1 = not three and nf == 1 and r.random() < .3
    k = 5 if km1 else 1
    fam = family(t, r, [(nb, ny, nx) if three else (ny * k, nx * k) for ny in nys], 'modis', dtype=str(r.choice(['i2', 'f4', 'i4'])))
    missing = r.random() < .3 and not km1
    files, las, los, ts = [], [], [], []
    scale = '10km' if r.random() < .5 else '5km'
    for i, ny in enumerate(nys):
        p = t.path('MYD0%d_L2.A2008%03d.0000.hdf' % (4 if not km1 else 6, i + 1))
        files.append(p)
        la, lo = pos(t, r, (ny, nx), False)
        if km1:
            la.stored[:] = (5. * np.arange(ny)[:, None] + np.arange(nx)[None]).astype('f4')
            lo.stored[:] = (20. + 5. * np.arange(nx)[None] + 0 * np.arange(ny)[:, None]).astype('f4')
            la.want, lo.want = la.stored.astype(float), lo.stored.astype(float)
        if missing:
            for x in (la, lo):
                x.fill = np.float32(-999.)
                x.stored[int(r.integers(0, ny)), 0] = -999
                x.want = np.ma.masked_array(x.stored.astype(float), mask=x.stored == -999)
        secs = np.round(np.cumsum(r.uniform(.5, 1.5, (ny * k, nx * k)).ravel()).reshape(ny * k, nx * k) + float(r.integers(0, 5e8)), 2)
        sd = SD(p, SDC.WRITE | SDC.CREATE)
        dims = ['Cell_Along_Swath_%s:mod' % scale, 'Cell_Across_Swath_%s:mod' % scale]
        sd_put(sd, 'Latitude', la, dims, units='degrees_north')
        sd_put(sd, 'Longitude', lo, dims, units='degrees_east')
        vd = ['Cell_Along_Swath_1km:mod', 'Cell_Across_Swath_1km:mod'] if km1 else dims
        sd_put(sd, 'Scan_Start_Time', plainarr(secs, 'f8'), vd, units='Seconds since 1993-1-1 00:00:00.0 0')
        sd_put(sd, 'AOD', fam[i], (['Band:mod'] if three else []) + vd, long_name='aerosol', units='1')
        sd.end()
        las.append(la.want), los.append(lo.want)
        ts.append(std(datetime.datetime(1993, 1, 1)) + secs / 86400)
    if nf > 1:
        t.mark('several_files')
    cat = np.ma.concatenate
    t.describe('MODIS L2 %s x %s bands %s 1km %s %s' % (nys, nx, three and nb, km1, fam[0].sig()))
    names = {'latitude': 'Latitude', 'longitude': 'Longitude', 'time': 'Scan_Start_Time'}
    if km1:
        # positions between the 5 km centres are linear between them (so is what was stored); none beyond the outer centres
        ny, n = nys[0], nx
        la = np.full((ny * 5, n * 5), np.nan)
        yy, xx = np.arange(ny * 5)[:, None], np.arange(n * 5)[None]
        la = (yy - 2.) + (xx - 2.) / 5.
        lo = 20. + (xx - 2.) + 0 * yy
        inside = (yy >= 2) & (yy <= ny * 5 - 3) & (xx >= 2) & (xx <= n * 5 - 3)
        la, lo = np.ma.masked_array(la, mask=~inside), np.ma.masked_array(lo, mask=~inside)
        coords = [('latitude', la, 1e-4), ('longitude', lo, 1e-4), ('time', ts[0], 2e-8)]
        d = cis.read_data(files, 'AOD')
        compare(t, 'modis2-1km', Names(d, names), fam[0].want, fam[0].tol, coords)
    else:
        coords = [('latitude', cat(las), 1e-5), ('longitude', cat(los), 1e-5), ('time', np.concatenate(ts), 2e-8)]
        if three:
            ds = MODIS_L2().create_data_object(files, 'AOD')
            t.check(len(ds) == nb, 'modis2-bands', t.desc)
            order = list(range(nb))
            if r.random() < .5:
                order = order[::-1]
            for b in order:
                compare(t, 'modis2-band', Names(ds[b], names), cat([s.want[b] for s in fam]), fam[0].tol, coords)
        else:
            d = cis.read_data(files, 'AOD')
            compare(t, 'modis2', Names(d, names), cat([s.want for s in fam]), fam[0].tol, coords)
            t.check('AOD' in cis.get_variables(files[:1]), 'modis2-variables', t.desc)
    t.seen('modis2', nf, three, km1, fam[0].sig(), missing, scale)


def modis3_case(t, r):
    from pyhdf.SD import SD, SDC
    import cis
    t.mark('modis3')
    nf = int(r.choice([1, 1, 2, 3]))
    ny, nx = int(r.integers(2, 6)), int(r.integers(2, 6))
    fam = family(t, r, [(ny, nx)] * nf, 'modis', dtype=str(r.choice(['i2', 'f4'])))
    lats = (60. - 10 * np.arange(ny)).astype('f4')
    lons = (-179.5 + 20 * np.arange(nx)).astype('f4')
    months = sorted(int(x) for x in r.choice(np.arange(1, 12), nf, False))
    files, ts, bs = [], [], []
    for i in range(nf):
        p = t.path('MYD08_D3.A2008%03d.hdf' % (i + 1))
        files.append(p)
        a = datetime.datetime(2008, months[i], int(r.integers(1, 28)), int(r.integers(0, 5)))
        b = a + datetime.timedelta(hours=int(r.integers(1, 25)))
        text = '\n'.join('OBJECT = %s\n NUM_VAL = 1\n VALUE = "%s"\nEND_OBJECT = %s\n' % (k, v, k) for k, v in [
            ('SHORTNAME', 'MYD08_D3'), ('RANGEBEGINNINGDATE', a.strftime('%Y-%m-%d')), ('RANGEENDINGTIME', b.strftime('%H:%M:%S')),
            ('RANGEBEGINNINGTIME', a.strftime('%H:%M:%S')), ('RANGEENDINGDATE', b.strftime('%Y-%m-%d'))])
        sd = SD(p, SDC.WRITE | SDC.CREATE)
        sd.attr('CoreMetadata.0').set(SDC.CHAR, text)
        sd_put(sd, 'XDim', plainarr(lons), ['XDim:mod08'])
        sd_put(sd, 'YDim', plainarr(lats), ['YDim:mod08'])
        sd_put(sd, 'AOD', fam[i], ['YDim:mod08', 'XDim:mod08'], long_name='aerosol', units='K')
        sd.end()
        ts.append((std(a) + std(b)) / 2)
        bs.append((std(a), std(b)))
    if nf > 1:
        t.mark('several_files')
    t.describe('MODIS L3 %s files %s x %s %s' % (nf, ny, nx, fam[0].sig()))
    g = cis.read_data(files, 'AOD')
    want = np.ma.stack([s.want for s in fam]) if nf > 1 else fam[0].want
    order = np.argsort(ts)
    if nf > 1:
        want = want[order]
    d = np.ma.asarray(g.data)
    t.mark('values_compared', int(want.size))
    if t.check(d.shape == want.shape, 'modis3-shape', lambda: '%s %s' % (t.desc, d.shape)):
        t.check(np.array_equal(np.ma.getmaskarray(d), np.ma.getmaskarray(want)), 'modis3-missing', lambda: '%s %s want %s' % (t.desc, d, want))
        ok = ~np.ma.getmaskarray(want) & ~np.ma.getmaskarray(d)
        t.check(np.allclose(d.data[ok], want.data[ok], rtol=fam[0].tol, atol=atol(fam[0].tol)), 'modis3-values', t.desc)
    t.check(np.array_equal(g.coord('latitude').points, lats) and np.array_equal(g.coord('longitude').points, lons), 'modis3-coords', t.desc)
    tc = g.coord('time')
    t.mark('coordinates_compared', nf + ny + nx)
    t.check(np.allclose(np.ravel(tc.points), np.array(ts)[order], rtol=0, atol=2e-8) and np.allclose(np.reshape(tc.bounds, (-1, 2)), np.array(bs)[order], rtol=0, atol=2e-8),
            'modis3-time', lambda: '%s %s want %s' % (t.desc, tc, ts))
    t.check(set(cis.get_variables(files)) >= {'AOD'}, 'modis3-variables', t.desc)
    t.seen('modis3', nf, fam[0].sig(), ny, nx)


def sd_case(t, r):
    """the generic HDF readers"""
    from pyhdf.SD import SD, SDC
    from pyhdf.HDF import HDF, HC
    from cis.data_io import hdf
    t.mark('sd')
    nf = int(r.choice([1, 2, 3]))
    shape = [int(x) for x in r.integers(1, 6, int(r.choice([1, 2, 3])))]
    shapes = [tuple([int(r.integers(1, 7))] + shape[1:]) for _ in range(nf)]
    fam = family(t, r, shapes, 'netcdf', dtype=str(r.choice(['i1', 'i2', 'i4', 'f4', 'f8'])), lo=-100, hi=100, fill=-99)
    vf = family(t, r, [(int(r.integers(1, 9)),) for _ in range(nf)], 'netcdf', scale=False, offset=False, vrange=False, fill=-99)
    files = []
    for i in range(nf):
        p = t.path('g%d.hdf' % i)
        files.append(p)
        f = HDF(p, HC.WRITE | HC.CREATE)
        vs = f.vstart()
        vd_put(vs, 'vv', vf[i], long_name='vd', units='K')
        vs.end()
        f.close()
        sd = SD(p, SDC.WRITE)
        sd_put(sd, 'ss', fam[i], long_name='sd', units='m')
        sd.end()
    if nf > 1:
        t.mark('several_files')
    t.describe('HDF SD %s VD %s %s %s' % (shapes, [x.stored.shape for x in vf], fam[0].sig(), vf[0].sig()))
    sdata, vdata = hdf.read(files, ['vv', 'ss'])
    for what, got, want, tol in (('sd', hdf.read_data(sdata['ss'], 'SD'), np.ma.concatenate([s.want for s in fam]), fam[0].tol),
                                 ('vd', hdf.read_data(vdata['vv'], 'VD'), np.ma.concatenate([s.want for s in vf]), vf[0].tol)):
        gm, wm = np.ma.getmaskarray(np.ma.asarray(got)), np.ma.getmaskarray(want)
        t.mark('values_compared', int(want.size))
        if t.check(got.shape == want.shape, what + '-shape', lambda: '%s %s' % (t.desc, got.shape)):
            t.check(np.array_equal(gm, wm), what + '-missing', lambda: '%s %s want %s' % (t.desc, got, want))
            t.check(np.allclose(np.ma.getdata(got)[~wm], want.data[~wm], rtol=tol, atol=atol(tol)), what + '-values', lambda: '%s %s want %s' % (t.desc, got, want))
    m = hdf.read_metadata(sdata['ss'], 'SD')
    t.check((m._name, m.long_name, str(m.units), tuple(np.atleast_1d(m.shape))) == ('ss', 'sd', 'm', shapes[0]), 'sd-metadata', lambda: '%s %s' % (t.desc, m.__dict__))
    m = hdf.read_metadata(vdata['vv'], 'VD')
    t.check((m._name, m.long_name, str(m.units), tuple(m.shape)) == ('vv', 'vd', 'K', vf[0].stored.shape), 'vd-metadata', lambda: '%s %s' % (t.desc, m.__dict__))
    both = hdf.get_hdf4_file_variables(files[0])
    t.check('ss' in (both[0] or {}) and 'vv' in (both[1] or {}), 'hdf-variables', lambda: '%s: %s' % (t.desc, both))
    t.seen('sd', nf, fam[0].sig(), vf[0].sig(), len(shape))


# ------------------------------------------------------------------ text

def aeronet_case(t, r):
    import cis
    t.mark('aeronet')
    kind = str(r.choice(['v2', 'v2sda', 'v3', 'v3sda', 'man']))
    nf = int(r.choice([1, 1, 2]))
    # the middle columns: in any order, some names repeated (they are numbered from 0 in the order of the columns)
    mid = ['AOT_440', 'Water(cm)', '%TripletVar_440', '440-870Angstrom']
    ndup = int(r.choice([0, 2, 3]))
    mid += ['Ratio[x]'] * ndup
    mid = [mid[k] for k in r.permutation(len(mid))]
    nwave = int(r.integers(1, 6)) if 'sda' in kind and r.random() < .6 else 0
    wname = 'Exact_Wavelengths_for_Input_AOD(%s)' % ('um' if '3' in kind or r.random() < .5 else 'nm')
    names, k = [], 0
    for m in mid:
        if m == 'Ratio[x]':
            names.append('Ratiox%d' % k if ndup > 1 else 'Ratiox')
            k += 1
        else:
            names.append(m.replace('%', ''))
    wnames = [wname + (str(k) if nwave > 1 else '') for k in range(nwave)]
    files, las, los, als, ts = [], [], [], [], []
    want = {m: [] for m in names + wnames}
    for i in range(nf):
        n = int(r.integers(1, 20))
        lat, lon, alt = round(float(r.uniform(-90, 90)), 3), round(float(r.uniform(-180, 180)), 3), round(float(r.uniform(0, 4000)), 1)
        lines = []
        t0 = datetime.datetime(int(r.integers(1994, 2016)), int(r.integers(1, 13)), int(r.integers(1, 29)), 1)
        stamps = [t0 + datetime.timedelta(seconds=int(s)) for s in np.sort(r.integers(0, 86400 * 20, n))]
        miss = {'v2': ['N/A'], 'v2sda': ['N/A'], 'v3': ['-999.', '-999'], 'v3sda': ['-999.000000'], 'man': ['-999.00000', '-10000']}[kind]
        plat, plon = np.full(n, lat), np.full(n, lon)
        if kind == 'man':
            plat, plon = np.round(r.uniform(-90, 90, n), 4), np.round(r.uniform(-180, 180, n), 4)
        cols = {}
        for nm in want:
            v = np.ma.masked_array(np.round(r.uniform(-2, 3, n), 6), mask=r.random(n) < .3)
            cols[nm] = v
            want[nm].append(v)
        date = [d.strftime('%d:%m:%Y') for d in stamps]
        time = [d.strftime('%H:%M:%S') for d in stamps]
        tail = ['Number_of_Wavelengths', wname] if nwave else ['Last']
        if kind.startswith('v2'):
            head = ['Level 2.0. Quality Assured Data.' + (' SDA retrieval' if 'sda' in kind else ''), 'Version 2 Direct Sun Algorithm' + (' SDA' if 'sda' in kind else ''),
                    'Location=Somewhere,long=%s,lat=%s,elev=%s,Nmeas=12,PI=A_B,Email=a@b' % (lon, lat, alt), 'AOT Level 2.0,All Points,UNITS can be found at,,,',
                    ','.join(['Date(dd-mm-yy),Time(hh:mm:ss),Julian_Day'] + mid + tail)]
        elif kind.startswith('v3'):
            head = ['AERONET Version 3;' + (' SDA' if 'sda' in kind else ''), 'Somewhere', 'Version 3: %s Level 2.0' % ('SDA Retrieval' if 'sda' in kind else 'AOD'), 'The following data', 'Contact: PI=A',
                    'All Points,UNITS can be found at,,,',
                    ','.join(['Date_(dd:mm:yyyy),Time_(hh:mm:ss),Day_of_Year'] + mid + ['Site_Latitude(Degrees),Site_Longitude(Degrees),Site_Elevation(m)'] + (tail if nwave else []))]
        else:
            head = ['Maritime Aerosol Network (MAN)', 'Level 2', 'x', 'y', ','.join(['Date(dd:mm:yyyy),Time(hh:mm:ss),Air Mass,Latitude,Longitude'] + mid + tail)]
        cell = lambda nm, j: str(r.choice(miss)) if cols[nm].mask[j] else '%.6f' % cols[nm].data[j]
        for j in range(n):
            vals = [cell(nm, j) for nm in names]
            end = [str(nwave)] + [cell(nm, j) for nm in wnames] if nwave else ['1.0']
            if kind.startswith('v2'):
                row = [date[j], time[j], '12.3'] + vals + end
            elif kind.startswith('v3'):
                row = [date[j], time[j], '12'] + vals + [str(lat), str(lon), str(alt)] + (end if nwave else [])
            else:
                row = [date[j], time[j], '1.5', '%.4f' % plat[j], '%.4f' % plon[j]] + vals + end
            lines.append(','.join(row))
        p = t.path('92080%d_Site%d.%s' % (i, i, 'lev20' if kind != 'man' else 'all'))
        with open(p, 'w') as f:
            f.write('\n'.join(head + lines) + '\n')
        files.append(p)
        las.append(plat), los.append(plon), als.append(np.full(n, 0. if kind == 'man' else alt))
        ts.append(np.array([std(d) for d in stamps]))
    if nf > 1:
        t.mark('several_files')
    nm = str(r.choice(sorted(want)))
    if nwave and r.random() < .4:
        nm = wnames[-1]
        t.mark('aeronet_wavelengths')
    t.describe('Aeronet %s %s files %s points columns %s, %d wavelengths; %s' % (kind, nf, [len(x) for x in las], mid, nwave, nm))
    cat = np.ma.concatenate
    d = cis.read_data(files, nm)
    coords = [('latitude', cat(las), 1e-9), ('longitude', cat(los), 1e-9), ('altitude', cat(als), 1e-9), ('time', cat(ts), 2e-8)]
    compare(t, 'aeronet', Names(d, {'latitude': 'Latitude', 'longitude': 'Longitude', 'altitude': 'Altitude', 'time': 'DateTime'}), cat(want[nm]), 1e-12, coords)
    if nm in ('AOT_440', 'Water(cm)'):
        t.check(d.var_name == nm.split('(')[0] and str(d.units) == ('cm' if '(' in nm else '1'), 'aeronet-name', lambda: '%s %s %s' % (t.desc, d.var_name, d.units))
    vs = cis.get_variables(files)
    t.check(set(want) <= set(vs), 'aeronet-variables', lambda: '%s %s' % (t.desc, vs))
    t.seen('aeronet', kind, nf, nm, len(las[0]) == 1)


def ascii_case(t, r):
    import cis
    t.mark('ascii')
    nf = int(r.choice([1, 1, 2, 3]))
    files, cols = [], {k: [] for k in ('latitude', 'longitude', 'altitude', 'time', 'value')}
    for i in range(nf):
        n = int(r.integers(1, 15))
        c = gen.rand_coords(r, n, ['latitude', 'longitude', 'altitude'])
        t0 = datetime.datetime(int(r.integers(1950, 2030)), 1, 1)
        stamps = [t0 + datetime.timedelta(seconds=int(s)) for s in r.integers(0, 86400 * 400, n)]
        v = np.ma.masked_array(np.round(r.uniform(-5, 5, n), 4), mask=r.random(n) < .2)
        am = np.zeros(n, bool) if r.random() < .7 else r.random(n) < .3
        p = t.path('p%d.txt' % i)
        fmt = str(r.choice(['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S']))
        with open(p, 'w') as f:
            for j in range(n):
                f.write(','.join([repr(float(c['latitude'][j])), repr(float(c['longitude'][j])), '' if am[j] else repr(float(c['altitude'][j])),
                                  stamps[j].strftime(fmt), '' if v.mask[j] else repr(float(v.data[j]))]) + '\n')
        files.append(p)
        cols['latitude'].append(c['latitude']), cols['longitude'].append(c['longitude'])
        cols['altitude'].append(np.ma.masked_array(c['altitude'], mask=am)), cols['value'].append(v)
        cols['time'].append(np.array([std(s) for s in stamps]))
    if nf > 1:
        t.mark('several_files')
    cat = np.ma.concatenate
    w = {k: cat(x) for k, x in cols.items()}
    t.describe('ASCII %s files %s points' % (nf, [len(x) for x in cols['value']]))
    d = cis.read_data(files, 'value')
    compare(t, 'ascii', d, w['value'], 1e-12, [(k, w[k], 1e-9 if k != 'time' else 2e-8) for k in ('latitude', 'longitude', 'altitude', 'time')])
    t.seen('ascii', nf, len(w['value']), bool(np.ma.getmaskarray(w['altitude']).any()))


def earthcare_case(t, r):
    import netCDF4
    import cis
    t.mark('earthcare')
    nf = int(r.choice([1, 1, 2, 3]))
    kind = str(r.choice(['profile', 'track', 'class', 'noheight', 'band', 'background', 'class2', 'nominal']))
    nz, nc = int(r.integers(2, 7)), int(r.choice([2, 3, 4, 12]))
    swath = kind == 'band'
    sizes = [int(x) for x in r.integers(2, 12, nf)]
    lead = {'profile': lambda n: (n, nz), 'track': lambda n: (n,), 'class': lambda n: (n, nz, nc), 'noheight': lambda n: (n, nz), 'band': lambda n: (nc, n, nz),
            'background': lambda n: (n, nc), 'class2': lambda n: (n, nz, nc), 'nominal': lambda n: (n, nz)}[kind]
    dims = {'band': ['band', 'along_track', 'JSG_height'], 'background': ['along_track', 'background'],
            'class2': ['along_track', 'JSG_height', 'aerosol_components']}.get(kind, ['along_track', 'JSG_height', 'class'][:len(lead(2))])
    product = {'band': 'MSI_RGR_1C', 'background': 'ATL_NOM_1B', 'nominal': 'ATL_NOM_1B', 'class2': 'MSI_AOT_2A', 'track': 'ATL_CTH_2A'}.get(kind, 'ATL_EBD_2A')
    ellipsoid = product == 'ATL_NOM_1B'
    fam = family(t, r, [lead(n) for n in sizes], 'netcdf', dtype=str(r.choice(['f4', 'f8', 'i4'])))
    t0 = float(r.integers(5e8, 8e8))
    files, las, los, times, hs = [], [], [], [], []
    for i, (n, s) in enumerate(zip(sizes, fam)):
        secs = np.round(t0 + 1000 * i + np.cumsum(r.uniform(.1, 1, n)), 3)
        la, lo = pos(t, r, (n, nz) if swath else n, False, 'f8')
        h = np.round(20000. - 100 * np.arange(nz)[None] - r.integers(0, 50, (n, 1)), 1)
        p = t.path('ECA_EXAA_%s_20250101T00000%dZ_x.h5' % (product, i))
        with netCDF4.Dataset(p, 'w') as f:
            g = f.createGroup('ScienceData')
            g.createDimension('along_track', n)
            g.createDimension('JSG_height', nz)
            for d in ('class', 'band', 'background', 'aerosol_components'):
                g.createDimension(d, nc)
            x = 'ellipsoid_' if ellipsoid else ''
            for nm, v, u in ((x + 'longitude', lo.stored, 'degrees_east'), (x + 'latitude', la.stored, 'degrees_north'), ('time', secs, 'seconds since 2000-01-01 00:00:00')):
                q = g.createVariable(nm, 'f8', ['along_track', 'JSG_height'][:v.ndim])
                q.units, q.long_name = u, nm
                q[:] = v
            if kind not in ('noheight', 'band', 'class2'):
                q = g.createVariable('sample_altitude' if ellipsoid else 'height', 'f8', ['along_track', 'JSG_height'])
                q.units, q.long_name = 'm', 'height'
                q[:] = h
            put(g, 'ext', dims, s, r, ('_FillValue', None), long_name='ext')
        files.append(p)
        las.append(la.want)
        los.append(lo.want)
        times.append(secs)
        hs.append(h)
    t.describe('EarthCARE %s %s files %s %s of %s' % (kind, nf, lead(0), fam[0].sig(), nc))
    if nf > 1:
        t.mark('several_files')
    wants, nm = [s.want for s in fam], 'ScienceData/ext'
    string = {'class': '_CLASSNUM_', 'band': '_BANDNUM_', 'background': '_BACKGROUNDNUM_', 'class2': '_AEROSOL_COMPONENTSNUM_'}.get(kind)
    if string:
        b = 0
        if r.random() < .8:
            b = int(r.integers(0, nc))
            nm += string + '%d' % b
        wants = [w[b] if kind == 'band' else w[..., b] for w in wants]
    want = np.ma.concatenate(wants)
    d = cis.read_data(files if nf > 1 else files[0], nm)
    ex = lambda x: np.repeat(np.asarray(x)[:, None], nz, 1) if len(want.shape) == 2 and np.ndim(x) == 1 else x
    coords = [('latitude', ex(np.ma.concatenate(las)), 1e-9), ('longitude', ex(np.ma.concatenate(los)), 1e-9),
              ('time', ex(std(datetime.datetime(2000, 1, 1)) + np.concatenate(times) / 86400), 2e-8)]
    if kind in ('profile', 'class', 'nominal'):
        coords.append(('altitude', np.concatenate(hs), 1e-9))
    coords = [(k, np.ma.masked_array(c), a) for k, c, a in coords]
    x = 'ellipsoid_' if ellipsoid else ''
    compare(t, 'earthcare', Names(d, dict(latitude=x + 'latitude', longitude=x + 'longitude', time='time', altitude='altitude')), want, fam[0].tol, coords)
    for c in ('latitude', 'longitude'):
        t.check(len(d.coords(standard_name=c)) == 1, 'earthcare-standard-name', lambda: '%s: %s' % (t.desc, d.coords()))
    try:
        x = cis.read_data(files, 'ScienceData/absent')
        t.fail('earthcare-absent-variable', '%s: an absent variable is read as %r' % (t.desc, x))
    except Exception as e:
        t.check('absent' in str(e), 'earthcare-absent-variable', lambda: '%s: %r' % (t.desc, e))
    t.seen('earthcare', kind, nf, fam[0].sig())


# ------------------------------------------------------------------ gridded products

def grid_compare(t, what, d, dims, want, tol, aux=()):
    """d: GriddedData; dims: [(name, values, atol)] in the order of want; aux: [(name, units, dims, values, required)] fields which may be attached as auxiliary
    coordinates.  Neither the order of the dimensions nor the direction of the axes is judged."""
    import cf_units
    want = np.ma.asarray(want)
    data, axes, cvals = np.ma.asarray(d.data), [], []
    for nm, vals, atol_ in dims:
        cs = d.coords(nm)
        if not t.check(len(cs) == 1, what + '-coordinate', lambda: '%s: %d coordinates called %s in\n%s' % (t.desc, len(cs), nm, d)):
            return False
        cd = d.coord_dims(cs[0])
        if not t.check(len(cd) == 1 or len(vals) == 1 and len(cd) == 0, what + '-dimensions', lambda: '%s: %s is on dimensions %s' % (t.desc, nm, cd)):
            return False
        axes += list(cd)
        cvals.append(np.asarray(cs[0].points, float))
    if not t.check(sorted(axes) == list(range(data.ndim)) and all(c.shape == np.shape(v[1]) for c, v in zip(cvals, dims)), what + '-shape',
                   lambda: '%s: %s %s want %s' % (t.desc, axes, data.shape, want.shape)):
        return False
    full = tuple(len(v[1]) for v in dims)

    def arrange(x):
        x = np.ma.asarray(x).transpose(axes).reshape(full)
        for k, c in enumerate(cvals):
            x = np.ma.take(x, np.argsort(c, kind='stable'), axis=k) if not np.all(np.diff(c) > 0) else x
        return x

    orders = [np.argsort(np.asarray(v[1], float), kind='stable') for v in dims]

    def expected(x):
        for k, o in enumerate(orders):
            x = x[(slice(None),) * k + (o,)]
        return x
    for c, (nm, vals, a), o in zip(cvals, dims, orders):
        t.mark('coordinates_compared', len(c))
        t.check(np.allclose(np.sort(c), np.asarray(vals, float)[o], rtol=0, atol=a), what + '-' + nm, lambda: '%s: %s want %s' % (t.desc, np.sort(c)[:5], np.asarray(vals)[o][:5]))
    g, w = arrange(data), expected(want)
    t.mark('values_compared', int(w.size))
    gm, wm = np.ma.getmaskarray(g), np.ma.getmaskarray(w)
    t.check(np.array_equal(gm, wm), what + '-missing', lambda: '%s: missing %s want %s' % (t.desc, gm.sum(), wm.sum()))
    a, b = np.ma.getdata(g)[~(gm | wm)].astype(float), np.ma.getdata(w)[~(gm | wm)].astype(float)
    t.check(np.allclose(a, b, rtol=tol, atol=atol(tol)), what + '-values', lambda: '%s: %s want %s' % (t.desc, a[:4], b[:4]))
    for nm, units, adims, vals, required in aux:
        cs = d.coords(nm, dim_coords=False)
        if not cs:
            t.check(not required, what + '-no-' + nm, lambda: '%s: no %s in\n%s' % (t.desc, nm, d))
            continue
        t.mark('aux_field')
        x = np.ma.asarray(cs[0].units.convert(np.ma.asarray(cs[0].points), cf_units.Unit(units)))
        cd = list(d.coord_dims(cs[0]))
        order = np.argsort(cd)
        x = x.transpose(order).reshape([data.shape[k] if k in cd else 1 for k in range(data.ndim)])
        x = arrange(np.ma.masked_array(np.broadcast_to(np.ma.getdata(x), data.shape), mask=np.broadcast_to(np.ma.getmaskarray(x), data.shape)))
        names = [v[0] for v in dims]
        k = [names.index(n) for n in adims]
        y = np.ma.asarray(vals).transpose(np.argsort(k)).reshape([full[i] if i in k else 1 for i in range(len(full))])
        y = expected(np.ma.masked_array(np.broadcast_to(np.ma.getdata(y), full), mask=np.broadcast_to(np.ma.getmaskarray(y), full)))
        xm, ym = np.ma.getmaskarray(x), np.ma.getmaskarray(y)
        t.mark('coordinates_compared', int(y.size))
        t.check(np.array_equal(xm, ym) and np.allclose(np.ma.getdata(x)[~ym], np.ma.getdata(y)[~ym], rtol=2e-6, atol=1e-9), what + '-' + nm,
                lambda: '%s: %s of %s on %s: %s want %s' % (t.desc, nm, adims, cd, np.ma.filled(x, -9).ravel()[:6], np.ma.filled(y, -9).ravel()[:6]))
    return True


def gridded_case(t, r):
    """NetCDF_Gridded: a field with vertical position given by another field of the file"""
    import cis
    import netCDF4
    t.mark('gridded')
    nf = int(r.choice([1, 1, 2, 3]))
    names = ['time', 'lev', 'latitude', 'longitude']
    if r.random() < .5:
        names = [names[i] for i in sorted(r.choice(4, int(r.integers(1, 5)), replace=False))]
    if nf > 1 and 'time' not in names:
        names.insert(0, 'time')
    if nf == 1 and r.random() < .3:
        names = [names[i] for i in r.permutation(len(names))]
    square = r.random() < .5
    n = {k: 3 if square else int(r.integers(1, 5)) for k in names}
    if nf > 1:                    # length-one dimensions become scalars, and are put together again
        n['time'] = int(r.integers(1, 4))
    coord = {'lev': np.cumsum(r.integers(1, 5, n.get('lev', 1))).astype(float), 'latitude': np.sort(r.choice(np.arange(-80., 81, 5), n.get('latitude', 1), replace=False)),
             'longitude': np.sort(r.choice(np.arange(0., 350, 5), n.get('longitude', 1), replace=False))}
    if r.random() < .3:
        coord['latitude'] = coord['latitude'][::-1]
    times = np.cumsum(r.integers(1, 40, nf * n.get('time', 1))).astype(float)
    field, funits = [('geopotential', 'm2 s-2'), ('geopotential_height', 'm'), ('geopotential_height', 'km'), ('air_pressure', 'Pa'), ('air_pressure', 'hPa')][int(r.integers(0, 5))]
    fdims = list(names)
    if r.random() < .4:
        fdims = [k for k in names if r.random() < .6]
    has_field = r.random() < .8 and len(fdims) > 0
    shape = [n[k] for k in names]
    fam = family(t, r, [tuple(shape)] * nf, 'netcdf', vrange=False)
    files, fvals = [], []
    ref = str(r.choice(['days since 2000-01-01', 'hours since 1970-01-01 00:00:00', 'days since 1600-01-01 00:00:00']))
    for i in range(nf):
        p = t.path('model_%d.nc' % i)
        with netCDF4.Dataset(p, 'w') as f:
            for k in names:
                f.createDimension(k, n[k])
                v = f.createVariable(k, 'f8', [k])
                if k == 'time':
                    v.units, v.standard_name, v.calendar = ref, 'time', 'standard'
                    v[:] = times[i * n[k]:(i + 1) * n[k]]
                else:
                    v[:] = coord[k]
                    if k == 'lev':
                        v.long_name, v.units = 'lev', '1'
                    else:
                        v.standard_name, v.units = k, 'degrees_north' if k == 'latitude' else 'degrees_east'
            put(f, 'v', names, fam[i], r, ('_FillValue', None), long_name='some long name')
            if has_field:
                y = np.ma.masked_array(np.round(r.uniform(10, 50000, [n[k] for k in fdims]), 1), mask=False)
                if r.random() < .2:
                    y[r.random(y.shape) < .2] = np.ma.masked
                fvals.append(y)
                v = f.createVariable('field', 'f8', fdims, fill_value=-1.)
                v.standard_name, v.units = field, funits
                v[:] = y
        files.append(p)
    if nf > 1:
        t.mark('several_files')
    epoch = {'d': 1., 'h': 1 / 24.}[ref[0]]
    origin = {'2000': datetime.datetime(2000, 1, 1), '1970': datetime.datetime(1970, 1, 1), '1600': EPOCH}[ref.split('since ')[1][:4]]
    dims = []
    for k in names:
        # a dimension of length one can be dropped
        dims.append((k, std(origin) + times * epoch, 2e-8) if k == 'time' else (k, coord[k], 1e-9))
    if 'time' in names:
        ax = names.index('time')
        want = np.ma.concatenate([s.want for s in fam], axis=ax)
    else:
        want = fam[0].want
    aux = []
    if has_field:
        if 'time' in fdims:
            fv = np.ma.concatenate(fvals, axis=fdims.index('time'))
        else:
            fv = fvals[0]
        if field == 'geopotential':
            fv = fv / 9.80665
        aux.append(('air_pressure' if field == 'air_pressure' else 'altitude', funits if field != 'geopotential' else 'm', fdims, fv, fdims == names and (nf == 1 or 'time' in fdims)))
    if nf > 1 and 'time' not in fdims:
        aux = []                 # the field differs from file to file
    t.describe('NetCDF_Gridded %s files, %s %s %s, %s %s on %s, %s' % (nf, names, shape, fam[0].sig(), has_field and field, funits, fdims, ref))
    d = cis.read_data(files if r.random() < .5 or nf == 1 else t.path('model_*.nc'), 'v', product=str(r.choice(['NetCDF_Gridded', 'NetCDF_Gridded'])))
    if 'time' in names and not d.coord_dims('time') and len(dims[names.index('time')][1]) == 1:
        c = d.coord('time')      # a scalar time keeps its own units
        t.check(abs(c.units.convert(c.points[0], cis.time_util.cis_standard_time_unit) - dims[names.index('time')][1][0]) < 2e-8, 'gridded-time', t.desc)
        dims[names.index('time')] = ('time', c.points.astype(float), 1e-9)
    grid_compare(t, 'gridded', d, dims, want, fam[0].tol, aux)
    t.check(d.units == 'K' and d.long_name == 'some long name' and d.var_name == 'v', 'gridded-name', t.desc)
    t.seen('gridded', nf, tuple(names), tuple(shape), fam[0].sig(), has_field and field, funits, tuple(fdims), ref)


def model_case(t, r):
    """the gridded products with conventions of their own: ESA CCI level 3, HadGEM netCDF (CONVSH) and HadGEM PP files"""
    import cis
    import netCDF4
    kind = str(r.choice(['cloud', 'aerosol', 'convsh', 'pp']))
    t.mark('model_' + kind)
    nf = int(r.choice([1, 1, 2, 3]))
    n = {'lev': int(r.integers(1, 5)), 'latitude': int(r.integers(1 if kind != 'pp' else 2, 5)), 'longitude': int(r.integers(2, 6))}
    lat = np.sort(r.choice(np.arange(-80., 81, 5), n['latitude'], replace=False))
    lon = np.arange(n['longitude']) * float(r.choice([10., 60.])) + float(r.choice([0., -180.]))
    if kind == 'pp':              # only regular axes
        lat = -60. + np.arange(n['latitude']) * float(r.choice([5., 20.]))
    lev = np.cumsum(r.integers(1, 50, n['lev'])).astype(float)
    start = datetime.datetime(int(r.integers(1995, 2015)), int(r.integers(1, 13)), 1)
    broken = kind == 'aerosol' and r.random() < .15      # a known file, whose times are invalid
    if broken:
        start = datetime.datetime(2011, 1, 1)
    files, want, times, bounds = [], [], [], []
    tol = 3e-7
    nt = int(r.integers(1, 4)) if kind in ('convsh', 'pp') else 1
    history = r.random() < .8
    hybrid = r.random() < .4
    levname = 'Hybrid height' if hybrid else 'lev'
    names = ['time', 'latitude', 'longitude'] if kind in ('cloud', 'aerosol') else ['time', 'lev', 'latitude', 'longitude']
    bad = kind == 'aerosol' and r.random() < .3
    mean = r.random() < .5
    fam = family(t, r, [tuple(n[k] if k != 'time' else nt for k in names)] * nf, 'netcdf', vrange=False, **(dict(dtype='f4', scale=False, offset=False, fill=-9999., lo=-100, hi=100) if kind == 'pp' else {}))
    for i in range(nf):
        a = start + datetime.timedelta(days=31 * i)
        b = a + datetime.timedelta(days=int(r.integers(1, 28)), seconds=int(r.integers(0, 86400)))
        s = fam[i]
        if kind == 'cloud':
            p = t.path('%s-ESACCI-L3C_CLOUD-CLD_PRODUCTS-%d.nc' % (a.strftime('%Y%m'), i))
        elif kind == 'aerosol':
            p = t.path('%s-ESACCI-L3C_AEROSOL-AER_%d.nc' % (a.strftime('%Y%m'), i))
        elif kind == 'convsh':
            p = t.path('abcdea.pm%04d_%d.nc' % (1000 + i, i))
        else:
            p = t.path('abcdea_%d.pp' % i)
        files.append(p)
        if kind == 'pp':
            import iris
            hours = np.array([(a - datetime.datetime(1970, 1, 1)).total_seconds() / 3600 + 24 * k for k in range(nt)])
            dd = [(iris.coords.DimCoord(hours, standard_name='time', units='hours since 1970-01-01'), 0),
                  (iris.coords.DimCoord(1000. + lev, long_name='pressure', units='hPa'), 1),
                  (iris.coords.DimCoord(lat, standard_name='latitude', units='degrees'), 2),
                  (iris.coords.DimCoord(lon, standard_name='longitude', units='degrees'), 3)]
            c = iris.cube.Cube(np.ma.masked_array(s.stored, mask=s.mask), standard_name='air_temperature', units='K', dim_coords_and_dims=dd)
            iris.save(c, p)
            times.append(std(datetime.datetime(1970, 1, 1)) + hours / 24)
        else:
            with netCDF4.Dataset(p, 'w') as f:
                if history:
                    f.history = 'made %d' % i
                dn = {'time': 't' if kind == 'convsh' else 'time', 'lev': 'hybrid_ht' if hybrid else 'lev', 'latitude': 'latitude' if kind == 'convsh' else 'lat', 'longitude': 'longitude' if kind == 'convsh' else 'lon'}
                fd = [dn[k] for k in names if kind != 'aerosol' or k != 'time']
                for k in names:
                    if kind == 'aerosol' and k == 'time':
                        continue
                    f.createDimension(dn[k], n[k] if k != 'time' else nt)
                    v = f.createVariable(dn[k], 'f8', [dn[k]])
                    if k == 'time':
                        if kind == 'cloud':
                            v.units, v.standard_name, v.calendar = 'days since 1970-01-01', 'time', 'standard'
                            v[:] = [(a - datetime.datetime(1970, 1, 1)).total_seconds() / 86400]
                            times.append([std(a)])
                        else:
                            v.units, v.long_name, v.calendar = 'days since 1990-01-01 00:00:00', 't', 'standard'
                            days = (a - datetime.datetime(1990, 1, 1)).total_seconds() / 86400 + np.arange(nt)
                            v[:] = days
                            times.append(std(datetime.datetime(1990, 1, 1)) + days)
                    elif k == 'lev':
                        v.long_name, v.units = (levname, 'm') if hybrid else (levname, '1')
                        v[:] = lev
                    else:
                        v.standard_name, v.units = k, 'degrees_north' if k == 'latitude' else 'degrees_east'
                        v[:] = lat if k == 'latitude' else lon
                if kind in ('cloud', 'aerosol'):
                    form = '%Y%m%dT%H%M%SZ'
                    f.time_coverage_start = a.strftime(form)
                    f.time_coverage_end = b.strftime(form)
                    if bad:           # the end of a monthly file can be day 44
                        b = (a.replace(day=28) + datetime.timedelta(days=4)).replace(day=1) - datetime.timedelta(seconds=1)
                        f.time_coverage_end = a.strftime('%Y%m') + '44T235959Z'
                    if broken and i == 0:
                        b = datetime.datetime(2011, 1, 31, 23, 59, 59)
                        f.time_coverage_start, f.time_coverage_end = '201101-1T000000Z', '2011023T000000Z'
                        t.mark('broken_times')
                    f.id, f.tracking_id, f.date_created = 'id%d' % i, 'track%d' % i, 'date%d' % i
                    if kind == 'cloud':
                        f.number_of_processed_orbits = i + 5
                    else:
                        f.time_coverage_duration, f.inputfilelist = 'P%dD' % i, 'list%d' % i
                        times.append([(std(a) + std(b)) / 2])
                    bounds.append([std(a), std(b)])
                    f.history = 'the same'
                    if kind == 'aerosol':
                        f.history = 'made %d' % i
                s2 = s
                if kind == 'aerosol':
                    s2 = Stored.__new__(Stored)
                    s2.__dict__.update(s.__dict__)
                    s2.stored = s.stored[0]
                put(f, 'v', fd, s2, r, ('_FillValue', None), long_name='some long name')
        want.append(s.want)
        tol = s.tol
    if nf > 1:
        t.mark('several_files')
    t.describe('%s %s files %s %s history %s hybrid %s day 44 %s' % (kind, nf, names, list(want[0].shape), history, hybrid, bad))
    var = 'v' if kind != 'pp' else 'air_temperature'
    arg = files if nf == 1 or r.random() < .5 else files[::-1]
    d = cis.read_data(arg, var, product=None if kind in ('cloud', 'aerosol', 'pp') and r.random() < .8 else {'cloud': 'Cloud_CCI_L3', 'aerosol': 'Aerosol_CCI_L3', 'convsh': 'HadGEM_CONVSH', 'pp': 'HadGEM_PP'}[kind])
    tv = np.concatenate([np.asarray(x, float) for x in times])
    tc = d.coord('time')
    tn = 'time'
    if not d.coord_dims(tc):
        conv = lambda x: tc.units.convert(x, cis.time_util.cis_standard_time_unit)
        t.check(len(tv) == 1 and abs(conv(tc.points[0]) - tv[0]) < 2e-8, kind + '-time', lambda: '%s: %s want %s' % (t.desc, tc, tv))
        if len(tv) == 1:
            tv = tc.points.astype(float)
    else:
        conv = lambda x: x
        t.check(tc.units == cis.time_util.cis_standard_time_unit, kind + '-time-units', lambda: '%s: %s' % (t.desc, tc.units))
    if bounds and t.check(tc.has_bounds(), kind + '-no-time-bounds', t.desc):
        b = conv(np.asarray(tc.bounds, float))
        t.check(np.allclose(b[np.argsort(b[:, 0])], bounds, rtol=0, atol=2e-8), kind + '-time-bounds', lambda: '%s: %s want %s' % (t.desc, b, bounds))
    ln = 'pressure' if kind == 'pp' else levname
    vals = {'time': tv, 'lev': lev + (1000 if kind == 'pp' else 0), 'latitude': lat, 'longitude': lon}
    dims = [(ln if k == 'lev' else k, vals[k], 1e-3 if kind == 'pp' and k != 'time' else 2e-8) for k in names]
    grid_compare(t, kind, d, dims, np.ma.concatenate(want, axis=0), tol)
    t.check(str(d.units) == 'K', kind + '-units', lambda: '%s %s' % (t.desc, d.units))
    vs = cis.get_variables(files)
    t.check(var in vs or (kind == 'convsh' and 'some long name' in vs), kind + '-variables', lambda: '%s: %s' % (t.desc, vs))
    t.seen('model', kind, nf, tuple(n.values()), nt, history, hybrid, bad, fam[0].sig())


def case(t):
    r = t.rng
    f = [netcdf_case, netcdf_case, cloudsat_case, cloudsat_case, caliop_case, caliop_case, modis2_case, modis2_case, modis3_case, cci_case, cci_case, gassp_case,
         gassp_case, aeronet_case, aeronet_case, ascii_case, sd_case, earthcare_case,
         gridded_case, gridded_case, model_case, model_case][t.index % 22]
    import cis
    reads, read_data = [], cis.read_data

    def recording(files, variable, product=None):
        reads.append((files, variable, product))
        return read_data(files, variable, product)
    cis.read_data = recording
    try:
        f(t, r)
    finally:
        cis.read_data = read_data
    # what was read is among the variables which the files are said to have
    for files, variable, product in reads[:1]:
        if variable in ('CAD_Score', 'Column_Optical_Depth') or product == 'HadGEM_CONVSH' or '1km True' in t.desc:    # profiles and the resolution of the positions only; listed by their long names
            continue
        listed_case(t, r, files, variable, product)


def listed_case(t, r, files, variable, product):
    import cis
    vs = cis.get_variables(files, product=product)
    name = re.sub('_[A-Z_]+NUM_[0-9]+$', '', variable)
    t.mark('listed_variables', len(vs))
    t.check(name in vs, 'variable-not-listed', lambda: '%s: %s not in %s' % (t.desc, name, sorted(vs)[:30]))
