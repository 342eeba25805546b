"""C12: ungridded data written by save_data and read again; a raw netCDF4 reader and the re-read object are compared with the original."""
import os
import numpy as np
from vmon import gen

CASES = {'quick': 1680, 'thorough': 12000}
RULE = ('one observation per distinct (dtype, mask class, missing-value class, coordinates, units class, writer, source kind, number '
        'of variables, file name style) whose every value, mask, coordinate and name was compared after one and two round trips')
REQUIRED = {'values_compared': 8000, 'masked_points': 1500, 'second_round_trip': 200, 'packed_sources': 40, 'coords_compared': 800,
            'masked_int8': 3, 'missing_value_zero': 15}
ASSUMPTIONS = ["NaN and masked both count as missing", "stored values equal to netCDF's own default fill value or to the declared missing "
               "value are missing by definition and are not generated as data", "coordinates other than the five standard ones are not "
               "part of the CIS file format"]
DTYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'float64', 'float32']
STDN = [None, 'air_temperature', 'mass_concentration_of_dust_dry_aerosol_particles_in_air', '']
UNITS = ['1', 'K', 'hPa', 'degrees', '%', 'm s-1', 'W m-2', '', 'no such unit', 'days since 1970-01-01', 'per kilometer per steradian', 'kg/m3']
FNAMES = ['out.nc', 'a.b.nc', 'ESACCI-L2P_AEROSOL-x.nc', 'ESACCI-L2_CLOUD_x.nc', 'ESACCI-L3C_CLOUD_x.nc', 'xabcde_pa1234.nc', 'with space.nc',
          'x.txt.nc', 'MOD04.nc']


def defaults(dt):
    import netCDF4
    return netCDF4.default_fillvals.get(np.dtype(dt).str[1:])


def rand_values(r, n, dt, avoid):
    dt = np.dtype(dt)
    if dt.kind in 'iu':
        i = np.iinfo(dt)
        wide = r.random() < 0.5
        lo, hi = (i.min, i.max) if wide else (max(i.min, -100), 100)
        v = r.integers(lo, hi, n, dtype=dt, endpoint=True)
        if wide and n > 2:
            v[0], v[1] = i.max, i.min
    else:
        v = (r.normal(0, 1, n) * 10. ** r.integers(-12, 12)).astype(dt)
        if n > 3 and r.random() < 0.4:
            v[:3] = [np.finfo(dt).tiny, 0., -0.]
        if n > 5 and r.random() < 0.2:
            v[3:5] = [np.inf, -np.inf]
    for a in avoid:
        if a is not None:
            v = np.where(v == np.asarray(a).astype(dt), dt.type(1 if a != 1 else 2), v)
    return v


def missing_mask(a):
    a = np.ma.asarray(a)
    m = np.ma.getmaskarray(a).copy()
    if a.dtype.kind == 'f':
        m |= np.isnan(np.asarray(a.data))
    return m


def compare(t, tag, got, want, exact=True):
    """want, got: arrays; flattened."""
    got, want = np.ma.asarray(got).ravel(), np.ma.asarray(want).ravel()
    if not t.check(got.shape == want.shape, tag + '-count', lambda: '%s: %s points, want %s' % (t.desc, got.shape, want.shape)):
        return
    mg, mw = missing_mask(got), missing_mask(want)
    t.mark('values_compared', got.size)
    t.mark('masked_points', int(mw.sum()))
    t.check(np.array_equal(mg, mw), tag + '-mask', lambda: '%s: missing %s want %s values %s' % (
        t.desc, np.nonzero(mg)[0][:6], np.nonzero(mw)[0][:6], np.asarray(want.data)[mg != mw][:4]))
    ok = ~mg & ~mw
    a, b = np.asarray(got.data)[ok], np.asarray(want.data)[ok]
    same = (a == b) if exact else np.isclose(a.astype(float), b.astype(float), rtol=1e-6, atol=1e-12)
    t.check(bool(np.all(same)), tag + '-values', lambda: '%s: %s want %s' % (t.desc, a[~same][:4], b[~same][:4]))
    if exact:
        t.check(got.dtype == want.dtype, tag + '-type', lambda: '%s: %s want %s' % (t.desc, got.dtype, want.dtype))


def packed_source(t, r, path, coords, n):
    """A CIS-format file with a packed variable, as the ungridded products leave them."""
    import netCDF4
    with netCDF4.Dataset(path, 'w') as f:
        f.source = 'CIS1.0'
        f.createDimension('obs', n)
        for k, c in coords.items():
            v = f.createVariable(k, 'f8', ('obs',))
            v.standard_name, v.units = k, gen.TUNIT if k == 'time' else gen.UNITS[k]
            v[:] = c
        dt = str(r.choice(['i2', 'i4', 'f4', 'u1']))
        opts = {}
        if r.random() < 0.6:
            opts['fill_value'] = np.dtype(dt).type(99)
        v = f.createVariable('v0', dt, ('obs',), **opts)
        v.set_auto_maskandscale(False)
        v.units, v.long_name = 'K', 'packed'
        raw = r.integers(0, 90, n).astype(dt)
        style = str(r.choice(['both', 'scale', 'offset', 'none']))
        if style in ('both', 'scale'):
            v.scale_factor = float(r.choice([0.5, 0.01, 2.0]))
        if style in ('both', 'offset'):
            v.add_offset = float(r.choice([10., -273.15]))
        bad = np.zeros(n, bool)
        if 'fill_value' in opts:
            k = r.random(n) < 0.2
            raw[k] = 99
            bad |= k
        rng = str(r.choice(['none', 'valid_range', 'valid_min', 'valid_max']))
        if rng != 'none':
            if rng == 'valid_range':
                v.valid_range = np.array([5, 80], dt)
            elif rng == 'valid_min':
                v.valid_min = np.dtype(dt).type(5)
            else:
                v.valid_max = np.dtype(dt).type(80)
            if rng != 'valid_max':
                bad |= raw < 5
            if rng != 'valid_min':
                bad |= raw > 80
        v[:] = raw
        want = raw.astype('f8') * getattr(v, 'scale_factor', 1.) + getattr(v, 'add_offset', 0.)
    return np.ma.masked_array(want, mask=bad), '%s %s %s %s' % (dt, style, rng, sorted(opts))


def case(t):
    import cis
    from cis.data_io.ungridded_data import UngriddedDataList, UngriddedData
    from cis.data_io.Coord import CoordList
    from cis.data_io import write_netcdf
    from cis.data_io.data_writer import DataWriter
    from cf_units import Unit
    r = t.rng
    n = int(r.choice([1, 2, 5, 30, 100]))
    two_d = n % 2 == 0 and r.random() < 0.25
    shape = (2, n // 2) if two_d else (n,)
    have = [str(k) for k in r.permutation(gen.STD)[:int(r.integers(1, 6))]]
    if r.random() < 0.6:
        have = ['latitude', 'longitude'] + [k for k in have if k not in ('latitude', 'longitude')]
    coords = gen.rand_coords(r, n, have)
    for k in have:
        if r.random() < 0.2 and k != 'time':
            coords[k] = coords[k].astype('float32')
    fname = str(r.choice(FNAMES))
    path = t.path(fname)
    packed = r.random() < 0.2
    if packed:
        src = t.path('src_' + fname)
        want, how = packed_source(t, r, src, coords, n)
        t.describe('packed source %s n=%d coords=%s' % (how, n, have))
        t.mark('packed_sources')
        first = cis.read_data(src, 'v0')
        if n > 1:                      # a single point is gridded data to nobody: it is read as ungridded here as well
            pass
        compare(t, 'packed-read', first.data, want, exact=False)
        first.save_data(path)
        again = cis.read_data(path, 'v0')
        compare(t, 'resaved', again.data, want, exact=False)
        for k in have:
            compare(t, 'resaved-coord', again.coord(standard_name=k).data, coords[k].astype('f8'))
        p2 = t.path('third.nc')
        again.save_data(p2)
        third = cis.read_data(p2, 'v0')
        compare(t, 'resaved-twice', third.data, want, exact=False)
        t.check(str(third.units) == str(first.units) and third.long_name == first.long_name, 'resaved-names', t.desc)
        t.mark('second_round_trip')
        t.seen('packed', how, tuple(have), fname, n)
        return
    nvar = int(r.choice([1, 1, 2, 3]))
    variables, want, desc = [], [], []
    for v in range(nvar):
        dt = str(r.choice(DTYPES))
        mvk = str(r.choice(['none', 'empty', 'zero', '-999', 'nan', 'own'], p=[.3, .1, .2, .2, .1, .1]))
        mk = str(r.choice(['plain', 'nomask', 'some', 'all', 'nan'], p=[.3, .1, .4, .1, .1]))
        kind = np.dtype(dt).kind
        if mvk == 'nan' and kind != 'f' or mvk == '-999' and (kind == 'u' or dt == 'int8'):
            mvk = 'own'
        if mk == 'nan' and kind != 'f':
            mk = 'some'
        mv = {'none': None, 'empty': '', 'zero': 0, '-999': -999, 'nan': np.nan, 'own': np.dtype(dt).type(77)}[mvk]
        if kind == 'f' and mvk == '-999':
            mv = -999.
        val = rand_values(r, n, dt, [defaults(dt)] + ([mv] if mvk in ('zero', '-999', 'own') else []))
        bad = r.random(n) < {'plain': 0, 'nomask': 0, 'some': .3, 'all': 1.1, 'nan': .3}[mk]
        if mk == 'nan':
            val[bad] = np.nan
        elif mk == 'nomask':
            val = np.ma.array(val)
        elif mk != 'plain':
            val = np.ma.masked_array(val, mask=bad)
        if bad.any() and np.dtype(dt).itemsize == 1:
            t.mark('masked_int8')
        if mvk == 'zero' and bad.any():
            t.mark('missing_value_zero')
        u = str(r.choice(UNITS))
        md = gen.meta(name='v%d' % v, standard_name=r.choice(STDN) if r.random() < .6 else None, long_name=str(r.choice(['', 'Long name, with (signs) %', 'x'])),
                      units=Unit(u) if u not in ('no such unit', 'per kilometer per steradian') and r.random() < .3 else u,
                      missing_value=mv, history=str(r.choice(['', 'made by hand\nsecond line'])),
                      misc={} if r.random() < .5 else {'comment': 'some', 'number': 3.5, 'list': np.array([1, 2, 3])})
        cl = CoordList([gen.coord(k, coords[k].copy().reshape(shape)) for k in have])
        d = UngriddedData(val.reshape(shape).copy(), md, cl)
        if r.random() < .3:
            d.add_attributes({'flag': 'set by user'})
        variables.append(d)
        want.append(val)
        desc.append((dt, mvk, mk, u))
    writer = str(r.choice(['save_data', 'list', 'writer', 'write'])) if nvar == 1 else str(r.choice(['list', 'writer']))
    clash = nvar > 1 and r.random() < 0.15
    if clash:
        variables[1].var_name = 'v0' if r.random() < .6 else have[0]
    t.describe('%s n=%d 2d=%s coords=%s %s via %s clash=%s file=%s' % (nvar, n, two_d, [(k, str(coords[k].dtype)) for k in have], desc, writer, clash, fname))
    data = variables[0] if nvar == 1 and writer in ('save_data', 'write') else UngriddedDataList(variables)
    before = [(d.units, d.long_name, d.standard_name, d.metadata.history) for d in variables]
    try:
        if writer in ('save_data', 'list'):
            data.save_data(path)
        elif writer == 'writer':
            DataWriter().write_data(data, path)
        else:
            write_netcdf.write(data, path)
    except Exception:
        if clash:       # refusing is fine, losing a variable is not
            t.mark('clash_refused')
            return
        raise
    if clash:
        a, b = np.ma.asarray(want[0]), np.ma.asarray(want[1] if variables[1].var_name == 'v0' else want[0])
        c = b if variables[1].var_name == 'v0' else np.ma.asarray(want[1])
        a = a if variables[1].var_name == 'v0' else np.ma.asarray(coords[have[0]])
        if np.array_equal(missing_mask(a), missing_mask(c)) and np.all(np.asarray(a.data)[~missing_mask(a)] == np.asarray(c.data)[~missing_mask(a)]):
            return       # the same content: nothing is lost
        t.fail('variable-lost', 'two variables of the same name saved without an error, only one can be in the file: ' + t.desc)
        return
    style = str(r.choice(['each', 'list', 'wild']))
    if style == 'each':
        back = [cis.read_data(path, 'v%d' % v) for v in range(nvar)]
    elif style == 'list':
        back = list(cis.read_data_list([path], ['v%d' % v for v in range(nvar)]))
    else:
        back = list(cis.read_data_list(path, 'v*'))
        if not t.check(sorted(b.var_name for b in back) == ['v%d' % v for v in range(nvar)], 'wildcard', t.desc):
            return
        back.sort(key=lambda b: b.var_name)
    for v, (b, d, w) in enumerate(zip(back, variables, want)):
        t.check(type(b).__name__ == 'UngriddedData', 'product-not-recognised', t.desc)
        compare(t, 'reread', b.data, w)
        t.check(sorted(c.standard_name for c in b.coords()) == sorted(have), 'reread-coords', t.desc)
        for k in have:
            c = b.coord(standard_name=k)
            compare(t, 'reread-coord', c.data, coords[k])
            t.mark('coords_compared')
            t.check(c.units == d.coord(standard_name=k).units, 'reread-coord-units', lambda: '%s %s want %s' % (k, c.units, d.coord(standard_name=k).units))
        u0, l0, s0, h0 = before[v]
        t.check(b.var_name == 'v%d' % v and (b.long_name or '') == (l0 or '') and (b.standard_name or '') == (s0 or ''), 'reread-names',
                lambda: '%s: %r %r %r' % (t.desc, b.var_name, b.long_name, b.standard_name))
        t.check(str(b.units) == str(u0) or b.units == u0, 'reread-units', lambda: '%s: %r want %r' % (t.desc, b.units, u0))
        t.check((b.metadata.history or '') == h0, 'reread-history', lambda: '%s %r want %r' % (t.desc, b.metadata.history, h0))
        for k2, v2 in list(d.metadata.misc.items()) + list(d.attributes.items()):
            t.check(k2 in b.metadata.misc and np.all(b.metadata.misc[k2] == v2), 'reread-attributes', lambda: '%s: %s' % (t.desc, k2))
    # second round trip
    p2 = t.path('second.nc')
    (back[0] if nvar == 1 else UngriddedDataList(back)).save_data(p2)
    for v, w in enumerate(want):
        b = cis.read_data(p2, 'v%d' % v)
        compare(t, 'second', b.data, w)
        for k in have:
            compare(t, 'second-coord', b.coord(standard_name=k).data, coords[k])
        t.check(b.units == back[v].units or str(b.units) == str(back[v].units), 'second-units', t.desc)
        t.check((b.long_name, b.standard_name, b.metadata.history) == (back[v].long_name, back[v].standard_name, back[v].metadata.history), 'second-names', t.desc)
    t.mark('second_round_trip')
    t.seen(tuple(desc), tuple(have), writer, style, fname, two_d, n)
