"""C24: points with missing coordinates, and all the views of a data object.  A plain model (flat values, masks, coordinates) follows a random history of
views and modifications of a data object; each view is compared with the model."""
import datetime
import logging
import os
import numpy as np
from vmon import gen

CASES = {'quick': 5000, 'thorough': 40000}
CASE_LIMIT = 120
RULE = 'one observation per distinct (kind of object, shape, sort of missing coordinate, previous operation, view) compared with the model'
REQUIRED = {'dropped_points': 10000, 'missing_nan': 500, 'missing_mask': 700, 'missing_both': 500, 'lazy': 700, 'several_managers': 300, 'views': 30000,
            'modified': 3500, 'missing_after_modification': 600, 'sliced': 600, 'coordinates_only': 150, 'gridded': 600, 'gridded_points': 30000, 'non_standard_dim': 400,
            'anonymous': 180, 'read_from_file': 100, 'frames': 900, 'points_from_view': 300000, 'view_set': 800, 'many_d': 600}
ASSUMPTIONS = ['a view of the data alone, between making a coordinate missing and the next access to the coordinates, may still hold the dropped points',
               'variables of one list do not share coordinate objects when coordinates have missing values',
               'after dropping points from a multi-dimensional object, it is one-dimensional']

STD = gen.STD
EPOCH = datetime.datetime(1600, 1, 1)


class C(object):
    """model of one coordinate"""

    def __init__(self, key, std, values, miss, units, obj=False, axis='', long_name=None):
        self.key, self.std, self.v, self.m, self.units, self.obj, self.axis, self.long_name = key, std, values, miss, units, obj, axis, long_name

    def copy(self):
        return C(self.key, self.std, self.v.copy(), self.m.copy(), self.units, self.obj, self.axis, self.long_name)

    def name(self):
        return self.std or self.long_name or self.key


class Model(object):
    def __init__(self, v, m, coords, shape, units='1'):
        self.v, self.m, self.coords, self.shape, self.units = v, m, coords, shape, units
        self.attrs = {}

    def copy(self):
        o = Model(self.v.copy(), self.m.copy(), [c.copy() for c in self.coords], self.shape, self.units)
        o.attrs = dict(self.attrs)
        return o

    def missing(self):
        out = np.zeros(self.v.size, bool)
        for c in self.coords:
            out |= c.m
        return out

    def drop(self):
        k = self.missing()
        if k.any():
            self.v, self.m = self.v[~k], self.m[~k]
            for c in self.coords:
                c.v, c.m = c.v[~k], c.m[~k]
            self.shape = self.v.shape
        return int(k.sum())


def arr(v, m, how, fill=None, dtype=None):
    """an array with the points `m` of `v` missing in the way asked; the kind of array used"""
    if v.dtype == object:
        a = np.ma.masked_array(v, mask=m) if m.any() or how == 'masked' else v.copy()
        return a
    if how == 'nan':
        v = v.astype(float).copy()
        v[m] = np.nan
        return v
    if how == 'both':
        v = v.astype(float).copy()
        half = m & (np.cumsum(m) % 2 == 0)
        v[half] = np.nan
        return np.ma.masked_array(v, mask=m & ~half)
    w = v.copy()
    if fill is not None:
        w[m] = fill
    return np.ma.masked_array(w, mask=m)


def make_model(t, r):
    nd = int(r.choice([1, 1, 1, 2, 3]))
    shape = tuple(int(x) for x in ([r.integers(1, 25)] if nd == 1 else r.integers(1, 6, nd)))
    n = int(np.prod(shape))
    which = [k for k in STD if r.random() < .75] or ['latitude']
    src = gen.rand_coords(r, n, which)
    coords = []
    p = float(r.choice([0., 0., .1, .4, .8]))
    for k in which:
        v = np.asarray(src[k], float)
        u = gen.std_time_unit() if k == 'time' else gen.UNITS[k]
        obj = False
        if k == 'time' and r.random() < .15:
            v = np.array([EPOCH + datetime.timedelta(days=int(x), minutes=int((x % 1) * 1440)) for x in v], dtype=object)
            u, obj = 'DateTime Object', True
        elif r.random() < .2 and k != 'time':
            v = v.astype('f4')
        elif r.random() < .15 and k in ('altitude', 'longitude'):
            v = np.round(v).astype(int)
        m = r.random(n) < p if r.random() < .5 else np.zeros(n, bool)
        coords.append(C(k, k, v, m, u, obj, gen.AXIS[k]))
    if r.random() < .25:
        for q in range(int(r.integers(1, 3))):
            m = r.random(n) < p if r.random() < .5 else np.zeros(n, bool)
            coords.append(C('extra%d' % q, None, r.integers(0, 99, n).astype(float), m, '1', False, '', 'extra coordinate %d' % q if r.random() < .5 else None))
    order = list(r.permutation(len(coords)))
    coords = [coords[i] for i in order]
    v = r.permutation(n) * .25 + 1000. * (1 + int(r.integers(0, 5)))
    if r.random() < .2:
        v = (v * 4).astype(int)
    elif r.random() < .15:
        v = v.astype('f4')
    m = r.random(n) < float(r.choice([0, .2, .5])) if r.random() < .7 else np.zeros(n, bool)
    return Model(v, m, coords, shape)


def build(t, r, model, hows):
    """the cis object of a model, from arrays or lazily from several pieces"""
    from cis.data_io.ungridded_data import UngriddedData
    from cis.data_io.Coord import Coord, CoordList
    lazy = r.random() < .35
    pieces = int(r.integers(1, 4)) if lazy else 1
    pieces = min(pieces, model.shape[0])
    cuts = sorted(int(x) for x in r.choice(np.arange(1, model.shape[0]), pieces - 1, replace=False)) if pieces > 1 else []

    def split(a):
        out = np.split(np.arange(model.shape[0]), cuts)
        return [a[i] for i in out]

    cl = []
    for c in model.coords:
        how = hows[c.key]
        a = arr(c.v, c.m, how, fill=None if c.obj or c.v.dtype.kind == 'i' else -999.).reshape(model.shape)
        md = gen.meta(name=c.key, standard_name=c.std, units=c.units, long_name=c.long_name or '', shape=a.shape)
        if lazy:
            parts = split(a)
            co = Coord(['part%d' % i for i in range(len(parts))], md, c.axis, data_retrieval_callback=lambda w, parts=parts: parts[int(w[4:])].copy())
        else:
            co = Coord(a, md, c.axis)
        cl.append(co)
        if c.m.any():
            t.mark('missing_%s' % {'nan': 'nan', 'both': 'both'}.get(how if not c.obj else 'masked', 'mask'))
    how = hows['data']
    if model.m.any() or how == 'masked':
        d = arr(model.v, model.m, 'masked', fill=-1 if r.random() < .5 else None).reshape(model.shape)
    else:
        d = model.v.copy().reshape(model.shape)
    if r.random() < .1 and isinstance(d, np.ndarray) and d.ndim > 1 and not lazy:
        d = np.ma.array(np.asfortranarray(d.data), mask=np.asfortranarray(np.ma.getmaskarray(d))) if isinstance(d, np.ma.MaskedArray) else np.asfortranarray(d)
        t.mark('fortran')
    model.attrs = {'note': 'kept'} if r.random() < .3 else {}
    md = gen.meta(name='v', long_name='the variable', units=model.units, misc={'a': 1}, shape=model.shape)
    if lazy:
        parts = split(d)
        out = UngriddedData(['part%d' % i for i in range(len(parts))], md, CoordList(cl) if r.random() < .5 else cl,
                            data_retrieval_callback=lambda w, parts=parts: parts[int(w[4:])].copy())
        t.mark('lazy')
        if len(parts) > 1:
            t.mark('several_managers')
    else:
        out = UngriddedData(d, md, CoordList(cl) if r.random() < .5 else cl)
    if model.attrs:
        out.add_attributes(dict(model.attrs))
    return out, lazy, pieces


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1., abs(float(b)))


def same_array(got, v, m, shape):
    if np.shape(got) != tuple(shape):
        return False
    g = np.ma.asarray(got)
    gm = np.ma.getmaskarray(g).ravel()
    if not np.array_equal(gm, m):
        return False
    x = np.asarray(g.data).ravel()[~m]
    w = v[~m]
    if w.dtype == object or x.dtype == object:
        return bool(np.all(x == w))
    return bool(np.allclose(x.astype(float), w.astype(float), rtol=1e-9, atol=1e-9))


def coord_number(c, i):
    return gen.days(c.v[i]) if c.obj else float(c.v[i])


def check_point(t, mech, p, model, i, has_val, desc):
    bad = []
    for k, name in enumerate(STD):
        c = [x for x in model.coords if x.std == name]
        got = p[k]
        if not c:
            if got is not None:
                bad.append((name, got, None))
        elif got is None or got is np.ma.masked or not close(got, coord_number(c[0], i)):
            bad.append((name, got, coord_number(c[0], i)))
    if has_val:
        if len(p.val) != 1:
            bad.append(('val', p.val, 'one value'))
        elif model.m[i]:
            if p.val[0] is not np.ma.masked:
                bad.append(('val', p.val[0], 'missing'))
        elif p.val[0] is np.ma.masked or not close(p.val[0], model.v[i]):
            bad.append(('val', p.val[0], float(model.v[i])))
    t.mark('points_from_view')
    t.check(not bad, mech, 'point %d: %s; %s' % (i, [tuple(str(q) for q in b) for b in bad], desc))


VIEWS = ['data', 'flat', 'size', 'coords', 'coord', 'coords_flat', 'points_iter', 'points_index', 'points_nonmasked', 'points_coords', 'frame', 'hyper', 'str',
         'find_std', 'slice', 'copy', 'new_same', 'new_flat', 'lonlat', 'from_points']
MODS = ['set_data', 'inplace_data', 'mask_data', 'set_coord', 'inplace_coord', 'coord_missing_set', 'coord_missing_inplace', 'units_coord', 'units_data', 'lonrange', 'view_set',
        'view_set_point']


def check_object(t, r, d, model, desc, view):
    """one view of the object against the model (which has no points with missing coordinates left)"""
    n = model.v.size
    t.mark('views')
    if view == 'data':
        got = d.data
        t.check(same_array(got, model.v, model.m, model.shape), 'data-view', 'data %s, expected %s; %s' % (str(got)[:200], str(np.ma.masked_array(model.v, model.m))[:200], desc))
        t.check(tuple(d.shape) == tuple(model.shape), 'shape-view', 'shape %s of data of shape %s; %s' % (d.shape, model.shape, desc))
    elif view == 'flat':
        t.check(same_array(d.data_flattened, model.v, model.m, (n,)), 'flattened-view', '%s; %s' % (str(d.data_flattened)[:200], desc))
    elif view == 'size':
        t.check(d.size == n and int(d.count()) == int((~model.m).sum()), 'size-view', 'size %s, count %s instead of %d, %d; %s' % (d.size, d.count(), n, (~model.m).sum(), desc))
    elif view == 'coords':
        cs = d.coords()
        t.check([c.name() for c in cs] == [c.name() for c in model.coords] or sorted(c.name() for c in cs) == sorted(c.name() for c in model.coords), 'coordinates-view',
                'coordinates %s; %s' % ([c.name() for c in cs], desc))
        for c, m in zip(cs, model.coords):
            t.check(same_array(c.data, m.v, m.m, model.shape), 'coordinate-view', '%s is %s, expected %s; %s' % (c.name(), str(c.data)[:200], str(m.v)[:200], desc))
            t.check(tuple(c.shape) == tuple(model.shape), 'shape-view', 'shape %s of coordinate %s of shape %s; %s' % (c.shape, c.name(), model.shape, desc))
    elif view == 'coord':
        m = model.coords[int(r.integers(len(model.coords)))]
        ways = [dict(name_or_coord=m.name())]
        if m.std:
            ways += [dict(standard_name=m.std), dict(axis=m.axis), dict(axis=m.axis.lower())]
        ways.append(dict(var_name=m.key))
        w = ways[int(r.integers(len(ways)))]
        c = d.coord(**w)
        for got in (c.data, c.points):
            t.check(same_array(got, m.v, m.m, model.shape), 'coordinate-view', '%s is %s, expected %s; %s' % (w, str(got)[:200], str(m.v)[:200], desc))
        t.check(same_array(c.data_flattened, m.v, m.m, (n,)), 'coordinate-view', '%s flattened is %s; %s' % (w, str(c.data_flattened)[:200], desc))
    elif view == 'lonlat':
        for att, std in (('lat', 'latitude'), ('lon', 'longitude'), ('time', 'time'), ('x', 'longitude'), ('y', 'latitude')):
            m = [c for c in model.coords if c.std == std]
            if m:
                t.check(same_array(getattr(d, att).points, m[0].v, m[0].m, model.shape), 'coordinate-view', '.%s is %s; %s' % (att, str(getattr(d, att).points)[:200], desc))
    elif view == 'coords_flat':
        got = d.coords_flattened
        for g, name in zip(got, STD):
            m = [c for c in model.coords if c.std == name]
            ok = (g is None) if not m else (g is not None and same_array(g, m[0].v, m[0].m, (n,)))
            t.check(ok, 'flattened-coordinates-view', '%s: %s; %s' % (name, str(g)[:200], desc))
    elif view == 'find_std':
        got = d.find_standard_coords()
        for g, name in zip(got, STD):
            m = [c for c in model.coords if c.std == name]
            ok = (g is None) if not m else (g is not None and same_array(g.data, m[0].v, m[0].m, model.shape))
            t.check(ok, 'standard-coordinates-view', '%s: %s; %s' % (name, str(g)[:200], desc))
    elif view in ('points_iter', 'points_index', 'points_nonmasked', 'points_coords'):
        if not any(c.std for c in model.coords):
            return
        if view == 'points_coords':
            pv = d.get_coordinates_points()
            t.check(len(pv) == n, 'points-view', 'length %d instead of %d; %s' % (len(pv), n, desc))
            got = list(pv)
            t.check(len(got) == n, 'points-view', '%d points instead of %d; %s' % (len(got), n, desc))
            for i, p in enumerate(got):
                check_point(t, 'points-view', p, model, i, False, desc)
            return
        pv = d.get_non_masked_points() if view == 'points_nonmasked' else d.get_all_points()
        t.check(len(pv) == n, 'points-view', 'length %d instead of %d; %s' % (len(pv), n, desc))
        valid = [i for i in range(n) if not model.m[i]]
        if view == 'points_index':
            for i in r.integers(0, n, min(n, 6)) if n else []:
                check_point(t, 'points-view', pv[int(i)], model, int(i), True, desc)
            try:
                pv[n]
                t.fail('points-view', 'no IndexError beyond the end; ' + desc)
            except IndexError:
                pass
            return
        for what, idx in (('default', valid if view == 'points_nonmasked' else list(range(n))), ('all', list(range(n))), ('non_masked', valid),
                          ('enum', valid), ('enum_all', list(range(n)))):
            if what == 'default':
                got = list(zip(idx, pv)) if len(list(pv)) == len(idx) else None
            elif what == 'all':
                got = list(pv.iter_all_points())
                got = list(zip(idx, got)) if len(got) == len(idx) else None
            elif what == 'non_masked':
                got = list(pv.iter_non_masked_points())
                got = list(zip(idx, got)) if len(got) == len(idx) else None
            elif what == 'enum':
                got = list(pv.enumerate_non_masked_points())
                got = got if [g[0] for g in got] == idx else None
            else:
                got = list(pv.enumerate_all_points())
                got = got if [g[0] for g in got] == idx else None
            if not t.check(got is not None, 'points-view', 'wrong number of points of the %s iterator; %s' % (what, desc)):
                continue
            for i, p in got:
                check_point(t, 'points-view', p, model, i, True, desc)
    elif view == 'frame':
        check_frame(t, r, d, model, desc)
    elif view == 'hyper':
        for i in (r.integers(0, n, min(n, 4)) if n else []):
            check_point(t, 'hyper-point', d.hyper_point(int(i)), model, int(i), True, desc)
    elif view == 'str':
        s = str(d)
        if n == 0 or model.m.all():
            return
        lines = s.split('\n')
        tot = [l for l in lines if 'Total number of points' in l][0].split('=')[1]
        cnt = [l for l in lines if 'Number of non-masked' in l][0].split('=')[1]
        t.check(int(tot) == n and int(cnt) == int((~model.m).sum()), 'summary-view', 'summary says %s and %s points instead of %d and %d; %s' % (tot, cnt, n, (~model.m).sum(), desc))
        rng = [l for l in lines if 'Range' in l][0].split('=')[1].strip().strip('()').split(',')
        w = model.v[~model.m]
        nums = [float(x.strip().replace('np.float64(', '').rstrip(')')) for x in rng]
        ok = abs(nums[0] - float(w.min())) <= 1e-4 * abs(float(w.min())) + 1e-9 and abs(nums[1] - float(w.max())) <= 1e-4 * abs(float(w.max())) + 1e-9
        t.check(ok, 'summary-view', 'summary gives the range %s instead of %s, %s; %s' % (rng, w.min(), w.max(), desc))


def check_frame(t, r, d, model, desc, data=True):
    n = model.v.size
    ti = bool(r.random() < .7)
    tc = [c for c in model.coords if c.std == 'time']
    kw = dict(time_index=ti) if r.random() < .9 or not ti else {}
    if not kw:
        ti = True
    copy = bool(r.random() < .6)
    if data and not copy:
        kw['copy'] = False
    if data and r.random() < .3:
        kw['name'] = 'chosen'
    df = d.as_data_frame(**kw)
    t.mark('frames')
    t.check(len(df) == n, 'table-view', 'table of %d rows instead of %d; %s' % (len(df), n, desc))
    if len(df) != n:
        return
    if data:
        col = kw.get('name') or d.name()
        if t.check(col in df.columns, 'table-view', 'columns %s lack %s; %s' % (list(df.columns), col, desc)):
            got = np.asarray(df[col], float)
            want = np.where(model.m, np.nan, model.v.astype(float))
            t.check(np.allclose(got, want, rtol=1e-9, equal_nan=True), 'table-view', 'column %s is %s instead of %s; %s' % (col, got[:20], want[:20], desc))
    for c in model.coords:
        if c.std == 'time' and ti:
            got = [EPOCH + datetime.timedelta(0) if x is None else datetime.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond) for x in df.index]
            ok = all(abs((g - (c.v[i] if c.obj else EPOCH + datetime.timedelta(days=float(c.v[i])))).total_seconds()) < 1e-3 for i, g in enumerate(got))
            t.check(ok, 'table-view', 'time index is %s; %s' % (got[:5], desc))
            continue
        col = c.name()
        if not t.check(col in df.columns, 'table-view', 'columns %s lack the coordinate %s; %s' % (list(df.columns), col, desc)):
            continue
        got = df[col]
        if c.obj:
            ok = all(x == y for x, y in zip(list(got), list(c.v)))
        else:
            ok = np.allclose(np.asarray(got, float), c.v.astype(float), rtol=1e-9)
        t.check(ok, 'table-view', 'column %s is %s instead of %s; %s' % (col, list(got)[:20], list(c.v)[:20], desc))
    if data and copy and n and df[kw.get('name') or d.name()].dtype.kind == 'f':
        df.iloc[:, :] = np.nan if all(x.kind == 'f' for x in df.dtypes) else df
        t.check(same_array(d.data, model.v, model.m, model.shape), 'table-copy', 'changing the table changed the data; ' + desc)


def rand_key(r, shape):
    """a key for data of a shape which does not reduce it to a scalar"""
    nd = len(shape)
    k = r.random()
    if k < .25:
        m = r.random(shape) < .6
        return m
    if k < .5 and nd > 1:
        key = []
        for i, s in enumerate(shape):
            q = r.random()
            if q < .3 and i and shape[i] and any(isinstance(x, slice) for x in key):
                key.append(int(r.integers(0, s)))
            else:
                key.append(slice(None, None, int(r.choice([1, 2, -1]))) if q < .7 else slice(int(r.integers(0, s + 1)), None))
        return tuple(key)
    if k < .7 and shape[0]:
        return np.asarray(r.integers(0, shape[0], int(r.integers(1, 6))))
    a, b = sorted(int(x) for x in r.integers(0, shape[0] + 1, 2))
    return slice(a, b, int(r.choice([1, 1, 2])))


def sub_model(model, key):
    o = model.copy()
    f = lambda a: a.reshape(model.shape)[key]
    v = f(model.v)
    o.shape = v.shape
    o.v, o.m = np.ascontiguousarray(v).ravel(), np.ascontiguousarray(f(model.m)).ravel()
    for c in o.coords:
        c.v, c.m = f(c.v).ravel().copy(), f(c.m).ravel().copy()
    return o


def deep_check(t, r, d, model, desc, extra=()):
    for v in ['data', 'coords', 'points_iter'] + list(extra):
        check_object(t, r, d, model, desc, v)


def same_meta(t, a, d, model, desc):
    t.check(a.name() == d.name() and str(a.units) == str(d.units) and a.var_name == d.var_name, 'metadata-of-view', '%s %s %s became %s %s %s; %s'
            % (d.name(), d.units, d.var_name, a.name(), a.units, a.var_name, desc))


def ungridded_case(t, d=None, model=None, label='made', pend=None):
    r = t.rng
    if d is None:
        model = make_model(t, r)
        hows = {c.key: str(r.choice(['nan', 'masked', 'both'])) for c in model.coords}
        for c in model.coords:
            if c.m.any() and not c.obj and hows[c.key] in ('nan', 'both') and c.v.dtype.kind == 'i':
                hows[c.key] = 'masked'
        hows['data'] = str(r.choice(['masked', 'plain']))
        d, lazy, pieces = build(t, r, model, hows)
        sort = 'lazy%d' % pieces if lazy else 'array'
    else:
        sort = label
    t.mark('many_d', 1 if len(model.shape) > 1 else 0)
    desc0 = '%s shape %s coordinates %s missing %s masked %d' % (sort, model.shape, [(c.key, str(c.v.dtype)) for c in model.coords], [int(c.m.sum()) for c in model.coords], model.m.sum())
    t.describe(desc0)
    t.mark('dropped_points', model.drop())
    hist, last = [], 'new'
    pending = False
    for step in range(int(r.integers(3, 12))):
        view = str(r.choice(VIEWS))
        if pending and view in ('data', 'flat', 'size', 'hyper', 'str', 'new_same', 'new_flat', 'copy') and r.random() < .5:
            # a view of the data alone can be given before the points are dropped: not judged, but it must not spoil later views
            if view == 'data':
                d.data
            elif view == 'flat':
                d.data_flattened
            elif view == 'size':
                d.size
            if view in ('data', 'flat', 'size'):
                hist.append(view + '?')
                continue
        if pending:
            if view in ('data', 'flat', 'size', 'new_same', 'new_flat', 'lonlat', 'from_points') or (view == 'copy' and r.random() < .5) \
                    or model.missing().all() or not any(c.std for c in model.coords):
                d.coords()
                hist.append('coords')
            t.mark('dropped_points', model.drop())
            pending = False
        hist.append(view)
        desc = desc0 + ' history ' + ' '.join(hist)
        t.seen(sort, len(model.shape), last, view, bool(model.m.any()), model.v.size > 0)
        last = view
        n = model.v.size
        if view == 'slice':
            if n == 0:
                continue
            key = rand_key(r, model.shape)
            out = d[key]
            want = sub_model(model, key)
            t.mark('sliced')
            deep_check(t, r, out, want, desc + ' key %s' % (key,), ['coords_flat', str(r.choice(VIEWS[:14]))])
            same_meta(t, out, d, model, desc)
            t.check(dict(out.attributes) == model.attrs, 'metadata-of-view', 'attributes of a slice are %s instead of %s; %s' % (out.attributes, model.attrs, desc))
            if out.data.size:                                              # the slice is a copy
                out.data[...] = 0
                for c in out.coords():
                    if c.data.dtype != object:
                        c.data[...] = 1
            deep_check(t, r, d, model, desc + ' (after changing a slice)')
        elif view == 'copy':
            if r.random() < .2 and hist[-2:-1] == ['coords']:
                nv = (np.arange(n) * 1.5).reshape(model.shape)
                out = d.copy(data=nv)
                want = model.copy()
                want.v, want.m = nv.ravel().copy(), np.zeros(n, bool)
            else:
                out, want = d.copy(), model.copy()
            deep_check(t, r, out, want, desc, [str(r.choice(VIEWS[:14]))])
            same_meta(t, out, d, model, desc)
            t.check(dict(out.attributes) == model.attrs, 'metadata-of-view', 'attributes of a copy are %s instead of %s; %s' % (out.attributes, model.attrs, desc))
            if n:
                out.data[...] = 0
                for c in out.coords():
                    if c.data.dtype != object:
                        c.data[...] = 1
            deep_check(t, r, d, model, desc + ' (after changing a copy)')
        elif view in ('new_same', 'new_flat'):
            flat = view == 'new_flat'
            nv = None if r.random() < .4 else (np.arange(n) * 1.5).reshape(model.shape)
            out = d.make_new_with_same_coordinates(data=nv, var_name='w', long_name='new one', units='K', history='made', flatten=flat)
            want = model.copy()
            want.v, want.m = (np.zeros(n) if nv is None else nv.ravel().copy()), np.zeros(n, bool)
            if flat:
                want.shape = (n,)
            deep_check(t, r, out, want, desc, [str(r.choice(VIEWS[:14]))])
            t.check(out.var_name == 'w' and out.long_name == 'new one' and str(out.units) == 'K' and 'made' in out.history, 'metadata-of-view', 'metadata asked for is lost; ' + desc)
            for c in out.coords():
                if c.data.dtype != object and c.data.size:
                    c.data[...] = 1
            deep_check(t, r, d, model, desc + ' (after changing a new object)')
        elif view == 'from_points':
            if n == 0 or not any(c.std for c in model.coords) or model.m.any():
                continue
            pts = list(d.get_all_points())
            out = type(d).from_points_array(pts)
            want = model.copy()
            want.shape = (n,)
            want.coords = [c for c in want.coords if c.std]
            for c in want.coords:
                if c.obj:
                    c.v, c.obj = np.array([gen.days(x) for x in c.v]), False
            for c in want.coords:
                got = out.coord(standard_name=c.std).data
                t.check(same_array(got, c.v, c.m, (n,)), 'from-points', '%s is %s; %s' % (c.key, str(got)[:100], desc))
            t.check(same_array(out.data, want.v, want.m, (n,)), 'from-points', 'data is %s; %s' % (str(out.data)[:100], desc))
        else:
            check_object(t, r, d, model, desc, view)
        if r.random() < .45 and n:
            mod = str(r.choice(MODS))
            done = modify(t, r, d, model, mod, desc)
            if done:
                hist.append(mod)
                last = mod
                t.mark('modified')
                pending = pending or bool(model.missing().any())
                if done == 'missing':
                    t.mark('missing_after_modification')
    if pending:
        d.coords()
        t.mark('dropped_points', model.drop())
    desc = desc0 + ' history ' + ' '.join(hist)
    deep_check(t, r, d, model, desc, ['size', 'coords_flat'])
    return d, model


def modify(t, r, d, model, mod, desc):
    n = model.v.size
    i = int(r.integers(n))
    if model.missing().any() and mod not in ('coord_missing_set', 'coord_missing_inplace', 'set_coord', 'inplace_coord'):
        return None
    if mod == 'set_data':
        v = r.permutation(n) * .5 + 7.
        m = r.random(n) < .3 if r.random() < .5 else np.zeros(n, bool)
        d.data = (np.ma.masked_array(v, mask=m) if m.any() or r.random() < .5 else v).copy().reshape(model.shape)
        model.v, model.m = v, m
    elif mod == 'inplace_data':
        if r.random() < .5:
            d.data[np.unravel_index(i, model.shape)] = 77
            model.v[i], model.m[i] = 77, False
        else:
            d.data[...] += 3
            model.v = model.v + 3
            if model.v.dtype.kind == 'i':
                pass
    elif mod == 'mask_data':
        if not isinstance(d.data, np.ma.MaskedArray):
            return None
        d.data[np.unravel_index(i, model.shape)] = np.ma.masked
        model.m = model.m.copy()
        model.m[i] = True
    elif mod in ('set_coord', 'coord_missing_set'):
        k = int(r.integers(len(model.coords)))
        c = model.coords[k]
        if c.obj:
            return None
        miss = np.zeros(n, bool)
        if mod == 'coord_missing_set':
            miss = r.random(n) < .4
        v = c.v.astype(float) + .125
        pend = model.missing().any()
        if pend and d.data.size != n:
            return None
        a = arr(v, miss, str(r.choice(['nan', 'masked', 'both'])), fill=-999.).reshape(model.shape)
        target = d._coords[k] if pend else find(d, c)
        target.data = a
        c.v, c.m = v, miss
        return 'missing' if miss.any() else True
    elif mod in ('inplace_coord', 'coord_missing_inplace'):
        k = int(r.integers(len(model.coords)))
        c = model.coords[k]
        if c.obj or c.v.dtype.kind == 'i' or model.missing().any():
            return None
        a = find(d, c).data
        if mod == 'inplace_coord':
            a[np.unravel_index(i, model.shape)] = 12.5
            c.v[i] = 12.5
        else:
            a[np.unravel_index(i, model.shape)] = np.ma.masked if isinstance(a, np.ma.MaskedArray) and r.random() < .5 else np.nan
            c.m = c.m.copy()
            c.m[i] = True
            return 'missing'
    elif mod == 'units_coord':
        cs = [c for c in model.coords if c.std in ('altitude', 'air_pressure')]
        if not cs:
            return None
        c = cs[int(r.integers(len(cs)))]
        new, f = {'m': ('km', .001), 'km': ('m', 1000.), 'hPa': ('Pa', 100.), 'Pa': ('hPa', .01)}[str(c.units)]
        find(d, c).convert_units(new)
        c.v, c.units = c.v.astype(float) * f if c.v.dtype != np.dtype('f4') else (c.v * np.float32(f)), new
        got = find(d, c).data
        if same_array_f4(got, c.v, model.shape):
            c.v = np.asarray(np.ma.getdata(got)).ravel().copy()
        else:
            t.fail('coordinate-view', '%s in %s is %s, expected %s; %s' % (c.key, new, str(got)[:100], str(c.v)[:100], desc))
    elif mod == 'units_data':
        if str(model.units) != '1':
            return None
        d.convert_units('0.01')
        model.v, model.units = model.v * 100., '0.01'
        if model.v.dtype != np.float64 or d.data.dtype != np.float64:
            got = d.data
            model.v = model.v.astype(float)
            ok = got.size == model.m.size and np.allclose(np.ma.getdata(got).ravel()[~model.m], model.v[~model.m], rtol=1e-6)
            t.check(ok, 'data-view', 'converted units; ' + desc)
            model.v = np.asarray(np.ma.getdata(got)).ravel().astype(got.dtype).copy()
    elif mod == 'lonrange':
        cs = [c for c in model.coords if c.std == 'longitude']
        if not cs or cs[0].obj:
            return None
        start = float(r.choice([-180., 0., -90., 100.]))
        if r.random() < .5:
            d.set_longitude_range(start)
        else:
            cs0 = find(d, cs[0])
            cs0.set_longitude_range(start)
        c = cs[0]
        want = c.v - 360. * np.floor((c.v.astype(float) - start) / 360.)
        got = np.asarray(np.ma.getdata(find(d, c).data), float).ravel()
        ok = got.shape == want.shape and np.all(got >= start - 1e-4) and np.all(got < start + 360 + 1e-4) and np.all(np.abs((got - want + 180) % 360 - 180) < 1e-3)
        t.check(ok, 'longitude-range', 'longitudes %s moved to %s start %s; %s' % (c.v[:10], got[:10], start, desc))
        c.v = got.copy()
    elif mod in ('view_set', 'view_set_point'):
        from cis.data_io.hyperpoint import HyperPoint
        if not any(c.std for c in model.coords):
            return None
        pv = d.get_all_points() if r.random() < .5 else d.get_non_masked_points()
        if mod == 'view_set' or any(c.obj for c in model.coords):
            pv[i] = 55.
        else:
            vals = {}
            for c in model.coords:
                if c.std:
                    vals[c.std] = 3. if c.v.dtype.kind != 'i' else 3
            kw = dict(zip(['lat', 'lon', 'alt', 'pres', 't'], [vals.get(k) for k in STD]))
            pv[i] = HyperPoint(val=55., **kw)
        # the view may be a view or a copy ("view (or copy, if necessary)") of the object; but then of all of it, and it agrees with itself
        t.mark('view_set')
        p = pv[i]
        m2 = model.copy()
        m2.v[i], m2.m[i] = 55., False
        if mod == 'view_set_point' and not any(c.obj for c in model.coords):
            for c in m2.coords:
                if c.std:
                    c.v[i] = 3
        check_point(t, 'points-view', p, m2, i, True, desc + ' (set through the view)')
        if d.data.flags['C_CONTIGUOUS'] and all(c.data.flags['C_CONTIGUOUS'] for c in d.coords()):
            model.v, model.m, model.coords = m2.v, m2.m, m2.coords
        else:
            model.v = np.asarray(np.ma.getdata(d.data)).ravel().copy()
            model.m = np.ma.getmaskarray(d.data).ravel().copy()
            for c in model.coords:
                c.v = np.asarray(np.ma.getdata(find(d, c).data)).ravel().copy()
    return True


def same_array_f4(got, v, shape):
    return np.shape(got) == tuple(shape) and not np.ma.getmaskarray(got).any() and np.allclose(np.asarray(np.ma.getdata(got), float).ravel(), v.astype(float), rtol=1e-6)


def find(d, c):
    return [x for x in d.coords() if x.var_name == c.key][0]


# ------------------------------------------------------------------------------------------------------------------------- coordinates only

def coordinates_case(t):
    from cis.data_io.ungridded_data import UngriddedCoordinates
    r = t.rng
    model = make_model(t, r)
    hows = {c.key: 'masked' if c.v.dtype.kind == 'i' else str(r.choice(['nan', 'masked', 'both'])) for c in model.coords}
    hows['data'] = 'plain'
    src, lazy, pieces = build(t, r, model, hows)
    cl = src._coords
    d = UngriddedCoordinates(cl if r.random() < .5 else list(cl))
    t.mark('coordinates_only')
    desc = 'coordinates only: lazy %s shape %s coordinates %s missing %s' % (lazy, model.shape, [(c.key, str(c.v.dtype)) for c in model.coords], [int(c.m.sum()) for c in model.coords])
    t.describe(desc)
    t.mark('dropped_points', model.drop())
    n = model.v.size
    for step in range(int(r.integers(2, 6))):
        view = str(r.choice(['size', 'coords', 'coord', 'coords_flat', 'points', 'points_coords', 'frame', 'hyper', 'copy', 'lonlat', 'lonrange']))
        t.seen('coordinates', len(model.shape), view, lazy, n > 0)
        t.mark('views')
        if view == 'size':
            t.check(d.size == n and d.count() == n, 'size-view', 'size %s, count %s of %d points; %s' % (d.size, d.count(), n, desc))
        elif view in ('coords', 'coord', 'coords_flat', 'lonlat'):
            check_object(t, r, d, model, desc, view)
        elif view in ('points', 'points_coords'):
            if not any(c.std for c in model.coords):
                continue
            pv = d.get_coordinates_points() if view == 'points_coords' else d.get_all_points() if r.random() < .5 else d.get_non_masked_points()
            t.check(len(pv) == n, 'points-view', 'length %d instead of %d; %s' % (len(pv), n, desc))
            for seq in (list(pv), list(pv.iter_all_points()), list(pv.iter_non_masked_points()), [p for i, p in pv.enumerate_non_masked_points()]):
                if t.check(len(seq) == n, 'points-view', '%d points instead of %d; %s' % (len(seq), n, desc)):
                    for i, p in enumerate(seq):
                        check_point(t, 'points-view', p, model, i, False, desc)
        elif view == 'frame':
            check_frame(t, r, d, model, desc, data=False)
        elif view == 'hyper' and n:
            i = int(r.integers(n))
            check_point(t, 'hyper-point', d.hyper_point(i), model, i, False, desc)
        elif view == 'copy':
            out = d.copy()
            check_object(t, r, out, model, desc, 'coords')
            for c in out.coords():
                if c.data.dtype != object and n:
                    c.data[...] = 1
            check_object(t, r, d, model, desc, 'coords')
        elif view == 'lonrange':
            cs = [c for c in model.coords if c.std == 'longitude']
            if cs:
                d.set_longitude_range(-180.)
                got = np.asarray(d.lon.points, float).ravel()
                want = cs[0].v - 360. * np.floor((cs[0].v.astype(float) + 180.) / 360.)
                t.check(np.all(np.abs((got - want + 180) % 360 - 180) < 1e-3) and np.all(got >= -180 - 1e-4) and np.all(got < 180 + 1e-4), 'longitude-range', '%s; %s' % (got, desc))
                cs[0].v = got.copy()


# ------------------------------------------------------------------------------------------------------------------------- gridded

def gridded_case(t):
    from cis.data_io.gridded_data import GriddedData
    from iris.coords import DimCoord, AuxCoord
    r = t.rng
    nd = int(r.choice([1, 2, 2, 3, 4]))
    kinds = [str(k) for k in r.permutation(STD + ['level', 'channel'])[:nd]]
    shape = tuple(int(x) for x in r.integers(1, 5, nd))
    anonymous = [r.random() < .12 for _ in range(nd)]
    dims, table = [], []
    for i, k in enumerate(kinds):
        n = shape[i]
        if k in STD:
            ax = gen.axis(r, k, n)
            co = gen.dim_coord(ax, bool(r.random() < .5))
        else:
            co = DimCoord(np.arange(n) * 2. + 1, long_name=k, units='1')
            if k == 'level' and r.random() < .5:
                co.standard_name = 'model_level_number'
        if anonymous[i]:
            t.mark('anonymous')
            table.append((None, None))
        else:
            if k not in STD:
                t.mark('non_standard_dim')
            dims.append((co, i))
            table.append((k, co.points.copy()))
    aux = []
    rest = [k for k in STD if k not in kinds]
    if rest and r.random() < .4:
        k = rest[0]
        aux.append((AuxCoord(gen.axis(r, k, 1)['points'][0], standard_name=k, units=gen.std_time_unit() if k == 'time' else {'latitude': 'degrees', 'longitude': 'degrees'}.get(k, gen.UNITS.get(k))), None))
    v = (r.permutation(int(np.prod(shape))) * .25 + 100.).reshape(shape)
    m = r.random(shape) < float(r.choice([0, .3, .7]))
    masked = m.any() or r.random() < .3
    if not masked:
        m = np.zeros(shape, bool)
    data = np.ma.masked_array(v.copy(), mask=m.copy()) if masked else v.copy()
    if r.random() < .3:
        import dask.array as da
        data = da.from_array(data, chunks=-1)
        t.mark('lazy')
    g = GriddedData(data, long_name='gridded one', var_name='g', units='1', dim_coords_and_dims=dims, aux_coords_and_dims=aux)
    t.mark('gridded')
    desc = 'gridded %s %s anonymous %s scalar %s masked %d' % (kinds, shape, anonymous, rest[:1] if aux else [], m.sum())
    t.describe(desc)

    def scalars():
        return {k.standard_name: float(k.points[0]) for k, _ in aux}

    def point_ok(p, idx, with_val, tab, vv, mm, what):
        bad = []
        std = {tab[a][0]: float(tab[a][1][idx[a]]) for a in range(len(idx)) if tab[a][0] in STD}
        for q, name in enumerate(STD):
            got = p[q]
            if name in std:
                if got is None or not close(got, std[name]):
                    bad.append((name, got, std[name]))
            elif got is not None and not (name in scalars() and close(got, scalars()[name])):
                bad.append((name, got, None))
        if with_val:
            if len(p.val) != 1:
                bad.append(('val', p.val, ''))
            elif mm[idx]:
                if p.val[0] is not np.ma.masked:
                    bad.append(('val', p.val[0], 'missing'))
            elif p.val[0] is np.ma.masked or not close(p.val[0], vv[idx]):
                bad.append(('val', p.val[0], vv[idx]))
        t.mark('gridded_points')
        t.check(not bad, 'gridded-points-view', '%s: point %s has %s; %s' % (what, idx, bad, desc))

    tab, cur, curm = table, v, m
    hist = ''
    for step in range(int(r.integers(2, 7))):
        op = str(r.choice(['all', 'nonmasked', 'coords', 'index', 'set', 'set_cube', 'slice', 'transpose', 'copy', 'new', 'frame', 'lonrange', 'find', 'viewlon']))
        hist += ' ' + op
        t.seen('gridded', tuple(kinds), shape, tuple(anonymous), op)
        idxs = list(np.ndindex(*cur.shape))
        valid = [i for i in idxs if not curm[i]]
        flat = {i: q for q, i in enumerate(idxs)}
        t.mark('views')
        if op in ('all', 'nonmasked', 'coords'):
            pv = {'all': g.get_all_points, 'nonmasked': g.get_non_masked_points, 'coords': g.get_coordinates_points}[op]()
            t.check(len(pv) == len(idxs), 'gridded-points-view', 'length %d of %d points; %s' % (len(pv), len(idxs), desc))
            seqs = [('default', list(pv), valid if op == 'nonmasked' else idxs), ('all', list(pv.iter_all_points()), idxs), ('non masked', list(pv.iter_non_masked_points()), valid)]
            e = list(pv.enumerate_non_masked_points())
            t.check([q for q, _ in e] == [flat[i] for i in valid], 'gridded-points-view', 'indices of the non-masked points are %s; %s' % ([q for q, _ in e][:20], desc))
            seqs.append(('enumerate', [p for _, p in e], valid))
            for what, got, want in seqs:
                if t.check(len(got) == len(want), 'gridded-points-view', '%s: %d points instead of %d;%s; %s' % (what, len(got), len(want), hist, desc)):
                    for p, i in zip(got, want):
                        point_ok(p, i, op != 'coords', tab, cur, curm, what)
        elif op == 'index':
            pv = g.get_all_points()
            for q in r.integers(0, len(idxs), 4):
                point_ok(pv[int(q)], idxs[int(q)], True, tab, cur, curm, 'flat index')
                point_ok(pv[idxs[int(q)]], idxs[int(q)], True, tab, cur, curm, 'index')
            try:
                pv[len(idxs)]
                t.fail('gridded-points-view', 'no IndexError beyond the end; ' + desc)
            except IndexError:
                pass
        elif op == 'set':
            pv = g.get_all_points() if r.random() < .5 else g.get_non_masked_points()
            q = int(r.integers(len(idxs)))
            pv[q if r.random() < .5 else idxs[q]] = 555.
            cur, curm = cur.copy(), curm.copy()
            cur[idxs[q]], curm[idxs[q]] = 555., False
            t.mark('view_set')
            point_ok(pv[q], idxs[q], True, tab, cur, curm, 'set')
            t.check(gen.compatible(g.data, np.ma.masked_array(cur, mask=curm)), 'gridded-set', 'the data is %s after setting point %s; %s' % (str(g.data)[:200], idxs[q], desc))
        elif op == 'set_cube':
            cur, curm = cur + 1., curm.copy()
            g.data = np.ma.masked_array(cur.copy(), mask=curm.copy()) if curm.any() else cur.copy()
        elif op == 'slice':
            key = []
            for s in cur.shape:
                a = int(r.integers(0, s))
                key.append(slice(a, int(r.integers(a + 1, s + 1))) if r.random() < .8 else slice(None))
            key = tuple(key)
            g = g[key]
            t.check(isinstance(g, GriddedData), 'gridded-class', 'a slice is a %s; %s' % (type(g), desc))
            cur, curm = cur[key], curm[key]
            tab = [(k, p[key[a]] if p is not None else None) for a, (k, p) in enumerate(tab)]
            t.mark('sliced')
        elif op == 'transpose':
            order = [int(x) for x in r.permutation(cur.ndim)]
            g.transpose(order)
            cur, curm, tab = cur.transpose(order), curm.transpose(order), [tab[a] for a in order]
        elif op == 'copy':
            c = g.copy()
            t.check(isinstance(c, GriddedData), 'gridded-class', 'a copy is a %s; %s' % (type(c), desc))
            t.check(gen.compatible(c.data, np.ma.masked_array(cur, mask=curm)), 'gridded-copy', desc)
            c.data[...] = 0
        elif op == 'new':
            nv = np.arange(cur.size).reshape(cur.shape) * .5
            c = g.make_new_with_same_coordinates(data=nv.copy(), var_name='w', long_name='new', units='K', history='made')
            for q, p in enumerate(c.get_all_points()):
                point_ok(p, idxs[q], True, tab, nv, np.zeros(cur.shape, bool), 'new object')
        elif op == 'frame':
            if cur.ndim > 2 or any(k is None for k, _ in tab):
                continue
            df = g.as_data_frame()
            got = np.asarray(df, float).reshape(cur.shape) if np.size(df) == cur.size else None
            ok = got is not None and np.allclose(got, np.where(curm, np.nan, cur), equal_nan=True)
            t.check(ok, 'gridded-table', 'table %s of %s; %s' % (str(df)[:300], str(cur)[:200], desc))
            t.mark('frames')
        elif op == 'find':
            for k, c in zip(STD, g.find_standard_coords()):
                w = [a for a in range(cur.ndim) if tab[a][0] == k]
                ok = (c is None) if not w else (c is not None and c[1] == w[0] and np.allclose(c[0].points, tab[w[0]][1]))
                t.check(ok, 'gridded-standard-coordinates', '%s: %s, expected dimension %s; %s' % (k, (str(c[0].points), c[1]) if c else None, w, desc))
        elif op == 'viewlon':
            pv = g.get_all_points()
            w = [a for a in range(cur.ndim) if tab[a][0] == 'longitude']
            start = float(r.choice([-180, 0, -540., 270.]))
            pv.set_longitude_range(start)
            if w:
                lo = tab[w[0]][1]
                want = lo - 360. * np.floor((lo - start) / 360.)
                tab2 = [(k, want if k == 'longitude' else p) for k, p in tab]
                for q, p in zip(idxs, pv):
                    point_ok(p, q, True, tab2, cur, curm, 'longitudes of a view from %s' % start)
        elif op == 'lonrange':
            w = [a for a in range(cur.ndim) if tab[a][0] == 'longitude']
            if not w or len(tab[w[0]][1]) < 2:
                continue
            lo = tab[w[0]][1]
            if np.ptp(lo) >= 359.99:
                continue
            start = float(r.choice([-180., 0., 17., -90.]))
            if np.any(np.abs((lo - start) % 360.) < 1e-6):
                continue
            try:
                g.set_longitude_range(start)
            except ValueError:
                continue
            new = g.coord('longitude').points
            want = lo - 360. * np.floor((lo - start) / 360.)
            pos = [int(np.argmin(np.abs(want - x))) for x in new]
            if not t.check(sorted(pos) == list(range(len(lo))) and np.allclose(want[pos], new), 'longitude-range', '%s from %s start %s; %s' % (new, lo, start, desc)):
                return
            cur, curm = np.take(cur, pos, w[0]), np.take(curm, pos, w[0])
            tab = [(k, np.asarray(new) if k == 'longitude' else p) for k, p in tab]
    pv = g.get_all_points()
    idxs = list(np.ndindex(*cur.shape))
    got = list(pv)
    if t.check(len(got) == len(idxs), 'gridded-points-view', '%d points of %d at the end;%s; %s' % (len(got), len(idxs), hist, desc)):
        for p, i in zip(got, idxs):
            point_ok(p, i, True, tab, cur, curm, 'at the end of' + hist)


# ------------------------------------------------------------------------------------------------------------------------- read from file

def file_case(t):
    import netCDF4
    import cis
    from cis.data_io.ungridded_data import UngriddedDataList
    r = t.rng
    n = int(r.integers(1, 20))
    which = [k for k in STD if r.random() < .7] or ['latitude']
    src = gen.rand_coords(r, n, which)
    names = ['v', 'w'][:int(r.integers(1, 3))]
    files, want = [], None
    for f in range(int(r.integers(1, 3))):
        model = {k: gen.values(r, n) for k in names}
        objs = [gen.ungridded({k: np.array(x) for k, x in src.items()}, v, name=k, units='K') for k, v in model.items()]
        path = t.path('f%d.nc' % f)
        (UngriddedDataList(objs) if len(objs) > 1 else objs[0]).save_data(path)
        miss = {k: np.zeros(n, bool) for k in which}
        with netCDF4.Dataset(path, 'a') as ds:
            for k in which:
                if r.random() < .5:
                    mm = r.random(n) < .3
                    x = ds.variables[k][:]
                    if r.random() < .5:
                        x = np.ma.asarray(x)
                        x[mm] = np.ma.masked
                    else:
                        x = np.array(x)
                        x[mm] = np.nan
                    ds.variables[k][:] = x
                    miss[k] = mm
        files.append(path)
        part = [Model(np.ma.getdata(model[k]).astype(float).ravel(), np.ma.getmaskarray(model[k]).ravel(),
                      [C(s, s, src[s].copy(), miss[s].copy(), '', False, gen.AXIS[s]) for s in which], (n,)) for k in names]
        if want is None:
            want = part
        else:
            for a, b in zip(want, part):
                a.v, a.m = np.concatenate([a.v, b.v]), np.concatenate([a.m, b.m])
                a.shape = a.v.shape
                for ca, cb in zip(a.coords, b.coords):
                    ca.v, ca.m = np.concatenate([ca.v, cb.v]), np.concatenate([ca.m, cb.m])
    t.describe('%d files of %d points variables %s coordinates %s missing %s' % (len(files), n, names, which, [int(c.m.sum()) for c in want[0].coords]))
    t.mark('read_from_file')
    out = cis.read_data_list(files, names if len(names) > 1 else names[0])
    got = {d.var_name: d for d in out}
    for k, model in zip(names, want):
        d = got[k]
        # the order in which cis holds its coordinates is its own affair
        order = [c.var_name for c in d._coords]
        model.coords = [next(c for c in model.coords if c.key == o) for o in order]
        for c in model.coords:
            c.units = str(gen.UNITS.get(c.key, ''))
        model.units = 'K'
        m2 = model.copy()
        m2.attrs = dict(d.attributes)
        m2.drop()
        label = 'file%d' % len(files)
        t.mark('dropped_points', int(model.missing().sum()))
        views = [str(x) for x in r.permutation(VIEWS[:14])[:5]]
        for view in views:
            t.seen(label, view, bool(m2.m.any()), len(names))
            check_object(t, r, d, m2, t.desc, view)
    if len(names) > 1 and r.random() < .5 and not any(c.m.any() for c in want[0].coords):
        df = out.as_data_frame()
        for k, model in zip(names, want):
            g = np.asarray(df[got[k].name()], float)
            t.check(np.allclose(g, np.where(model.m, np.nan, model.v), equal_nan=True), 'table-view', 'column %s of a list; %s' % (k, t.desc))


def points_case(t):
    """single points and coordinate objects"""
    from cis.data_io.hyperpoint import HyperPoint, HyperPointList
    from cis.data_io.Coord import Coord, CoordList
    r = t.rng
    t.describe('points and coordinates')
    vals = {k: float(r.integers(-80, 80)) for k in ('lat', 'lon', 'alt', 'pres', 't', 'val') if r.random() < .7}
    as_dt = lambda d: {k: (EPOCH + datetime.timedelta(days=v + 100)) if k == 't' and dt else (v + 100 if k == 't' else v) for k, v in d.items()}
    dt = bool(r.random() < .4)
    p = HyperPoint(**as_dt(vals))
    other = {k: float(r.integers(-80, 80)) for k in ('lat', 'lon', 'alt', 'pres', 't', 'val') if r.random() < .4}
    dt = bool(r.random() < .4)
    q = p.modified(**as_dt(other))
    t.seen('point', tuple(sorted(vals)), tuple(sorted(other)), dt)

    def ok(p, d):
        got = [p.latitude, p.longitude, p.altitude, p.air_pressure, p.time]
        want = [d.get('lat'), d.get('lon'), d.get('alt'), d.get('pres'), d['t'] + 100 if 't' in d else None]
        tup = sorted((n, w) for n, w in zip(STD, want) if w is not None)
        return all((g is None) == (w is None) and (g is None or close(g, w)) for g, w in zip(got, want)) and list(p.val) == ([d['val']] if 'val' in d else []) \
            and [x[0] for x in p.coord_tuple] == [x[0] for x in tup] and all(close(x[1], y[1]) for x, y in zip(p.coord_tuple, tup))
    t.check(ok(p, vals), 'point', 'HyperPoint(%s) is %s' % (vals, p))
    t.check(ok(q, dict(vals, **other)), 'point', '%s modified by %s is %s' % (vals, other, q))
    t.check(ok(p, vals), 'point', 'a point changed by making a modified copy: %s' % (p,))
    t.mark('points_from_view', 3)
    # coordinates put together, sliced and copied
    parts, all_v, all_m = [], [], []
    for i in range(int(r.integers(1, 4))):
        n = int(r.integers(1, 8))
        v, m = r.integers(0, 360, n).astype(float), r.random(n) < .3
        masked = r.random() < .7
        if not masked:
            m = np.zeros(n, bool)
        md = gen.meta(name='lon', standard_name='longitude', units='degrees_east', shape=(n,))
        a = np.ma.masked_array(v.copy(), mask=m.copy()) if masked else v.copy()
        parts.append((Coord('x', md, 'X', data_retrieval_callback=lambda w, a=a: a) if r.random() < .3 else Coord(a, md, 'X'), v, m))
        all_v.append(v)
        all_m.append(m)
    if r.random() < .2:
        start = -180.
        c, v, m = parts[0]
        c.set_longitude_range(start)
        w = v - 360. * np.floor((v - start) / 360.)
        t.check(same_array(c.data, w, m, v.shape), 'longitude-range', 'coordinate %s is %s' % (v, c.data))
        all_v[0] = w
        parts[0] = (c, w, m)
    whole = Coord.from_many_coordinates([c for c, _, _ in parts])
    t.seen('coordinates', len(parts), tuple(isinstance(c.data, np.ma.MaskedArray) for c, _, _ in parts))
    V, M = np.concatenate(all_v), np.concatenate(all_m)
    t.check(same_array(whole.data, V, M, V.shape) and tuple(whole.shape) == V.shape and whole.standard_name == 'longitude' and whole.axis == 'X', 'coordinate-view',
            'concatenated coordinate %s of shape %s, expected %s' % (whole.data, whole.shape, V))
    if len(parts) > 1:
        whole.data[...] = 0
    for c, v, m in parts:
        t.check(same_array(c.data, v, m, v.shape) and tuple(c.shape) == v.shape, 'coordinate-view', 'a part of a concatenated coordinate has shape %s instead of %s' % (c.shape, v.shape))
        k = rand_key(r, v.shape)
        s = c[k]
        t.check(same_array(s.data, v[k], m[k], v[k].shape), 'coordinate-view', 'slice %s of %s is %s' % (k, v, s.data))
        cc = c.copy()
        t.check(same_array(cc.data, v, m, v.shape), 'coordinate-view', 'copy of %s is %s' % (v, cc.data))
        cc.data[...] = 1
        if s.data.size:
            s.data[...] = 1
        t.check(same_array(c.data, v, m, v.shape), 'coordinate-view', 'coordinate %s changed with its copy: %s' % (v, c.data))
    cl = CoordList([parts[0][0]])
    cl2 = cl.copy()
    cl2[0].data[...] = 5
    t.check(same_array(cl[0].data, parts[0][1], parts[0][2], parts[0][1].shape), 'coordinate-view', 'a coordinate changed with a copy of its list')
    pts = HyperPointList([HyperPoint(lat=float(i), lon=2. * i, val=3. * i) for i in range(int(r.integers(1, 6)))])
    t.check(list(pts.latitudes) == [float(i) for i in range(len(pts))] and list(pts.longitudes) == [2. * i for i in range(len(pts))] and list(pts.vals) == [3. * i for i in range(len(pts))]
            and pts.altitudes is None and pts.times is None and pts.air_pressures is None, 'point', 'list of points')


def case(t):
    logging.disable(logging.CRITICAL)
    k = t.rng.random()
    if k < .04:
        points_case(t)
    elif k < .63:
        ungridded_case(t)
    elif k < .70:
        coordinates_case(t)
    elif k < .95:
        gridded_case(t)
    else:
        file_case(t)
