"""C28: lists of variables, and the operations inherited from iris.  Whatever is done to a list is also done to each of the variables alone (from copies made
beforehand) and, for the iris operations, to a plain cube; the results are compared in full (values, missing points, coordinates, names, classes)."""
import copy
import os
import numpy as np
from vmon import gen
from vmon.snap import snap, diff

CASES = {'quick': 3000, 'thorough': 40000}
RULE = 'one observation per distinct (operation, kind of data, number of variables, dimensions, missing points, arguments) whose results were compared in full'
REQUIRED = {'gridded_list': 400, 'ungridded_list': 400, 'container': 300, 'iris': 400, 'results_compared': 2000, 'refused': 60, 'empty_result': 20, 'same_names': 8}
ASSUMPTIONS = ['the history attribute (which has a time stamp) is compared without its value',
               'the results of single variables are judged by the checks of the operations themselves (C03-C11)']


def setup_worker(wdir):
    import iris, cis, scipy.interpolate  # noqa


def grid_family(r, nv, kinds=None):
    """axes and a function giving fresh, equal variables every time"""
    pool = ['latitude', 'longitude', 'time', 'altitude', 'air_pressure']
    if kinds is None:
        kinds = ['latitude', 'longitude'] + ([str(r.choice(pool[2:]))] if r.random() < .5 else [])
        kinds = [str(k) for k in r.permutation(kinds)]
    axes = [gen.axis(r, k, n=int(r.integers(3, 7)), direction=1) for k in kinds]
    for a in axes:
        if a['kind'] == 'longitude':
            a.update(gen.axis(r, 'longitude', n=len(a['points']), direction=1, conv=str(r.choice(['glob0', 'glob180', 'reg180']))))
    shape = tuple(len(a['points']) for a in axes)
    data, units, dts, aux = [], [], [], []
    for i in range(nv):
        v = np.round(r.integers(-4000, 4000, shape) / 4., 2)
        m = r.random(shape) < float(r.choice([0, 0, .2, .6]))
        dt = str(r.choice(['f8', 'f8', 'f4', 'i4']))
        data.append(np.ma.masked_array(v.astype(dt), mask=m) if m.any() else v.astype(dt))
        units.append(str(r.choice(['K', '1', 'kg m-3', 'm s-1'])))
    ragged = r.random() < .3 and kinds.index('latitude')
    auxv = np.round(r.normal(0, 50, shape[:2]), 3) if r.random() < .4 else None
    bounds = r.random() < .7

    def make():
        from iris.coords import AuxCoord
        out = []
        for i in range(nv):
            ax = () if auxv is None else ((AuxCoord(auxv.copy(), long_name='orography', units='m', var_name='orog'), (0, 1)),)
            c = gen.cube([dict((k, x.copy() if isinstance(x, np.ndarray) else x) for k, x in a.items()) for a in axes], data[i].copy(), name='v%d' % i, units=units[i],
                         bounds=bounds, aux=ax)
            c.add_attributes({'note': 'variable %d' % i})
            c.filenames = ['f%d.nc' % i]
            if i % 2:
                c.alias = 'alias%d' % i
            out.append(c)
        return out
    return axes, make, (tuple(kinds), shape, auxv is not None, bounds, tuple(bool(np.ma.getmaskarray(d).any()) for d in data), tuple(d.dtype.str for d in data))


def point_family(r, nv, n=None):
    n = n or int(r.choice([1, 2, 5, 20, 60]))
    which = ['latitude', 'longitude'] + [k for k in ('altitude', 'air_pressure', 'time') if r.random() < .4]
    co = gen.rand_coords(r, n, which)
    vals = [gen.values(r, n) for _ in range(nv)]
    units = [str(r.choice(['K', '1', 'kg m-3'])) for _ in range(nv)]
    shared = r.random() < .5

    def make():
        from cis.data_io.ungridded_data import UngriddedData
        out = []
        for i in range(nv):
            d = gen.ungridded(dict((k, x.copy()) for k, x in co.items()), vals[i].copy(), name='v%d' % i, units=units[i])
            if shared and out:
                d = UngriddedData(d.data, d.metadata, out[0]._coords)
            d.filenames = ['f%d.nc' % i]
            d.add_history('made')
            out.append(d)
        return out
    return co, make, (tuple(which), n, shared, tuple(bool(np.ma.getmaskarray(v).any()) for v in vals))


def flat(x):
    if x is None:
        return [None]
    return list(x) if isinstance(x, list) else [x]


def strip(s, *keys):
    if isinstance(s, dict):
        return dict((k, strip(v, *keys)) for k, v in s.items() if k not in keys)
    if isinstance(s, list):
        return [strip(v, *keys) for v in s]
    if isinstance(s, tuple) and len(s) and isinstance(s[0], tuple) and len(s[0]) == 2 and all(isinstance(k, tuple) and len(k) == 2 for k in s):
        return tuple(k for k in s if k[0] not in keys)
    return s


def shot(x):
    return None if x is None else strip(snap(x, history=False), 'history')


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def same(t, mech, got, want):
    """got, want: lists of data objects"""
    if not t.check(len(got) == len(want), mech + '-number', lambda: '%s: %d results, one by one %d' % (t.desc, len(got), len(want))):
        return
    for g, w in zip(got, want):
        t.mark('results_compared')
        if g is None or w is None:
            t.check(g is None and w is None, mech + '-empty', lambda: '%s: %r and %r' % (t.desc, g, w))
            continue
        d = diff(shot(w), shot(g))
        t.check(d is None, mech, lambda: '%s: %s' % (t.desc, d))


def judge(t, mech, op, listed, singles, kind):
    """op applied to the list (which may change it in place) and to every variable alone"""
    got, eg = attempt(lambda: op(listed))
    want, ew = [], None
    for s in singles:
        w, e = attempt(lambda: op(s))
        ew = ew or e
        want += flat(w)
    if ew is not None:
        t.mark('refused')
        t.check(eg is not None and type(eg) is type(ew), mech + '-error', lambda: '%s: alone %r, as a list %r' % (t.desc, ew, eg))
        return None
    if eg is not None:
        t.fail(mech + '-refused', '%s: %r' % (t.desc, eg))
        return None
    if got is None:
        t.mark('empty_result')
        t.check(all(w is None for w in want), mech + '-empty', lambda: '%s: nothing, but one by one %s' % (t.desc, [w is not None for w in want]))
        return None
    if not t.check(type(got).__name__ == kind, mech + '-class', lambda: '%s: %s' % (t.desc, type(got))):
        return None
    same(t, mech, flat(got), want)
    return got


def limits(r, lo, hi):
    a, b = sorted(float(x) for x in r.uniform(lo, hi, 2))
    if r.random() < .1:
        a, b = hi + 1000, hi + 1001
    return [round(a, 2), round(b, 2)]


def gridded_list(t, r):
    import iris
    from cis.data_io.gridded_data import GriddedDataList
    t.mark('gridded_list')
    nv = int(r.choice([1, 2, 3]))
    axes, make, sig = grid_family(r, nv)
    kinds = [a['kind'] for a in axes]
    op = str(r.choice(['subset', 'collapsed', 'onto_points', 'onto_grid', 'longitude', 'extract', 'intersection', 'interpolate', 'regrid', 'aggregated_by', 'transpose',
                       'coordinates', 'history', 'copy', 'saved']))
    listed, singles = GriddedDataList(make()), make()
    before = shot(listed)
    lat = axes[kinds.index('latitude')]
    inplace = None
    if op == 'subset':
        a = dict((k, limits(r, float(min(x['points'])) - 5, float(max(x['points'])) + 5)) for k, x in zip(kinds, axes) if r.random() < .5 and k != 'time')
        f = lambda d: d.subset(**dict((k, list(v)) for k, v in a.items()))
    elif op == 'collapsed':
        ks = [k for k in kinds if r.random() < .5] or kinds[:1]
        a = (ks, str(r.choice(['mean', 'sum', 'moments', 'max', ''])))
        f = lambda d: d.collapsed(list(ks), how=a[1])
    elif op == 'onto_points':
        co, mk, psig = point_family(r, 1)
        a = (psig, str(r.choice(['lin', 'nn'])), bool(r.random() < .5))
        f = lambda d: d.collocated_onto(mk()[0], how=a[1], missing_data_for_missing_sample=a[2])
    elif op == 'onto_grid':
        ax2, mk, psig = grid_family(r, 1, kinds)
        a = (psig, str(r.choice(['lin', 'nn'])))
        f = lambda d: d.collocated_onto(mk()[0], how=a[1])
    elif op == 'longitude':
        a = float(r.choice([-180, 0, -90, 37, 180]))
        inplace = lambda d: d.set_longitude_range(a)
    elif op == 'extract':
        a = float(np.round(r.choice(lat['points']) + r.choice([-1000, .5, 0, 1]), 3))
        f = lambda d: d.extract(iris.Constraint(latitude=lambda c: c.point < a))
    elif op == 'intersection':
        a = limits(r, -180, 180)
        f = lambda d: d.intersection(longitude=tuple(a))
    elif op == 'interpolate':
        a = (float(r.uniform(min(lat['points']), max(lat['points']))), bool(r.random() < .5))
        f = lambda d: d.interpolate([('latitude', [a[0]])], iris.analysis.Linear() if a[1] else iris.analysis.Nearest())
    elif op == 'regrid':
        _, mk, psig = grid_family(r, 1, kinds)
        a = (psig, bool(r.random() < .5))
        f = lambda d: d.regrid(mk()[0], iris.analysis.Linear() if a[1] else iris.analysis.Nearest())
    elif op == 'aggregated_by':
        a = str(r.choice(kinds))
        f = lambda d: d.aggregated_by(a, iris.analysis.MEAN)
    elif op == 'transpose':
        a = [int(x) for x in r.permutation(len(kinds))]
        inplace = lambda d: d.transpose(list(a))
    elif op == 'coordinates':
        from iris.coords import AuxCoord, DimCoord
        a = str(r.choice(kinds)), int(r.integers(0, 3))
        x = axes[kinds.index(a[0])]
        i = kinds.index(a[0])

        def inplace(d):
            if a[1] == 0:
                d.add_aux_coord(AuxCoord(np.arange(len(x['points'])) * 1.5, long_name='extra', units='m'), i)
            else:
                d.remove_coord(a[0])
                if a[1] == 2:
                    d.add_dim_coord(DimCoord(np.arange(len(x['points'])) * 2., long_name='other', units='1'), i)
    elif op == 'history':
        a = 'something'
        inplace = lambda d: d.add_history(a)
    elif op == 'copy':
        a = None
        f = lambda d: d.copy()
    else:
        a = None
        return saved(t, r, listed, singles, sig)
    t.describe('gridded list %s of %d %s with %r' % (op, nv, sig, a))
    t.seen('gridded', op, nv, sig, repr(a))
    if inplace is not None:
        t.path('x')
        f = lambda d: (inplace(d), d)[1]
    got = judge(t, 'gridded-list-' + op, f, listed, singles, 'UngriddedDataList' if op == 'onto_points' else 'GriddedDataList')
    if op == 'history':
        t.check(all('something' in d.attributes['history'] for d in listed), 'gridded-list-history', t.desc)
    if got is not None and op != 'onto_points':
        t.check(all(type(d).__name__ == 'GriddedData' for d in got), 'gridded-list-class', lambda: '%s: %s' % (t.desc, [type(d) for d in got]))
        # what is asked of the list is that of its first variable
        t.check(got.ndim == got[0].ndim and [c.name() for c in got.dim_coords] == [c.name() for c in got[0].dim_coords] and
                [c.name() for c in got.aux_coords] == [c.name() for c in got[0].aux_coords] and got.is_gridded and
                got.var_name == [d.var_name for d in got] and [c.name() for c in got.coords()] == [c.name() for c in got[0].coords()] and
                all(got.coord_dims(c.name()) == got[0].coord_dims(c) for c in got[0].coords(dim_coords=True)), 'gridded-list-queries', t.desc)
    if inplace is None:
        d = diff(before, shot(listed))
        t.check(d is None, 'gridded-list-input', lambda: '%s: the list was changed: %s' % (t.desc, d))


def saved(t, r, listed, singles, sig):
    """a list saved in one file holds what the variables saved in one file each hold"""
    import cis
    import netCDF4
    t.describe('saved list %s' % (sig,))
    gridded = type(listed).__name__ == 'GriddedDataList'
    one = t.path('all.nc')
    listed.save_data(one)
    for i, s in enumerate(singles):
        p = t.path('each%d.nc' % i)
        s.save_data(p)
        t.mark('results_compared')
        with netCDF4.Dataset(one) as f, netCDF4.Dataset(p) as g:
            if not t.check(s.var_name in f.variables, 'saved-variable', lambda: '%s: %s not in %s' % (t.desc, s.var_name, list(f.variables))):
                continue
            for nm, v in g.variables.items():
                if not t.check(nm in f.variables, 'saved-coordinate', lambda: '%s: %s not in %s' % (t.desc, nm, list(f.variables))):
                    continue
                w = f.variables[nm]
                if v.dtype.kind in 'SO':
                    continue
                t.check(w.dimensions == v.dimensions and gen.compatible(w[:], v[:]), 'saved-values', lambda: '%s: %s' % (t.desc, nm))
                aw, av = [dict((k, str(x.getncattr(k))) for k in x.ncattrs() if k != 'history') for x in (w, v)]
                t.check(aw == av, 'saved-attributes', lambda: '%s: %s: %s alone %s' % (t.desc, nm, aw, av))
    back = cis.read_data_list(one, [s.var_name for s in singles])
    t.check([d.var_name for d in back] == [s.var_name for s in singles] and back.is_gridded == gridded, 'saved-list', lambda: '%s: %s' % (t.desc, [d.var_name for d in back]))
    t.seen('saved', gridded, sig)


def ungridded_list(t, r):
    from cis.data_io.ungridded_data import UngriddedDataList
    t.mark('ungridded_list')
    nv = int(r.choice([1, 2, 3]))
    co, make, sig = point_family(r, nv)
    op = str(r.choice(['subset', 'aggregate', 'onto_points', 'onto_grid', 'longitude', 'history', 'copy', 'points', 'saved', 'frame']))
    listed, singles = UngriddedDataList(make()), make()
    before = shot(listed)
    inplace = None
    if op == 'subset':
        a = dict((k, limits(r, float(x.min()) - 1, float(x.max()) + 1)) for k, x in co.items() if r.random() < .5 and k != 'time')
        f = lambda d: d.subset(**dict((k, list(v)) for k, v in a.items()))
    elif op == 'aggregate':
        ks = [k for k in co if r.random() < .5 and k != 'time'] or ['latitude']
        a = dict((k, [float(np.floor(co[k].min())), float(np.floor(co[k].max())) + 1, float(max(1, np.ceil((co[k].max() - co[k].min()) / 4)))]) for k in ks)
        how = str(r.choice(['mean', 'moments', 'max', 'sum', '']))
        f = lambda d: d.aggregate(how=how, **dict((k, list(v)) for k, v in a.items()))
        a = (a, how)
    elif op == 'onto_points':
        _, mk, psig = point_family(r, 1, n=int(r.choice([1, 5, 20])))
        a = (psig, float(r.choice([50, 500, 5000])), str(r.choice(['mean', 'moments', 'max', ''])))
        f = lambda d: d.collocated_onto(mk()[0], how='box', kernel=a[2] or None, h_sep=a[1])
    elif op == 'onto_grid':
        _, mk, psig = grid_family(r, 1, ['latitude', 'longitude'])
        a = (psig, str(r.choice(['mean', 'moments', 'max', ''])))
        f = lambda d: d.collocated_onto(mk()[0], how='bin', kernel=a[1] or None)
    elif op == 'longitude':
        a = float(r.choice([-180, 0, -90, 37, 180]))
        inplace = lambda d: d.set_longitude_range(a)
    elif op == 'history':
        a = 'something'
        inplace = lambda d: d.add_history(a)
    elif op == 'copy':
        a = None
        f = lambda d: d.copy()
    elif op == 'points':
        a = None
        t.describe('ungridded list points of %d %s' % (nv, sig))
        got = listed.get_non_masked_points()
        for g, s in zip(got, singles):
            t.mark('results_compared')
            w = s.get_non_masked_points()
            t.check([tuple(map(repr, p)) for p in g] == [tuple(map(repr, p)) for p in w], 'ungridded-list-points', t.desc)
        t.check(len(got) == nv, 'ungridded-list-points', t.desc)
        return
    elif op == 'saved':
        return saved(t, r, listed, singles, sig)
    else:
        a = None
        t.describe('ungridded list frame of %d %s' % (nv, sig))
        same = nv > 1 and r.random() < .4
        if same:        # several kinds of the same thing
            t.mark('same_names')
            for d in list(listed) + list(singles):
                d.standard_name = 'air_temperature'
        df = listed.as_data_frame()
        t.check(df.columns.is_unique, 'ungridded-list-frame', lambda: '%s: %s' % (t.desc, list(df.columns)))
        for i, s in enumerate(singles):
            t.mark('results_compared')
            want = s.as_data_frame()
            for c in want.columns[:-1]:
                t.check(c in df.columns and df[c].equals(want[c]), 'ungridded-list-frame', lambda: '%s: %s in %s' % (t.desc, c, list(df.columns)))
            if not t.check(len(df.columns) == len(want.columns) - 1 + nv, 'ungridded-list-frame', lambda: '%s: %s' % (t.desc, list(df.columns))):
                break
            c = df.columns[len(want.columns) - 1 + i]
            t.check(c in ((s.name(),) if not same else (s.name(), s.var_name)) and df[c].equals(want[want.columns[-1]].rename(c)),
                    'ungridded-list-frame', lambda: '%s: %s of %s' % (t.desc, c, list(df.columns)))
            t.check(df.index.equals(want.index), 'ungridded-list-frame-index', t.desc)
        return
    t.describe('ungridded list %s of %d %s with %r' % (op, nv, sig, a))
    t.seen('ungridded', op, nv, sig, repr(a))
    if inplace is not None:
        f = lambda d: (inplace(d), d)[1]
    kind = 'GriddedDataList' if op in ('aggregate', 'onto_grid') else 'UngriddedDataList'
    got = judge(t, 'ungridded-list-' + op, f, listed, singles, kind)
    if op == 'history':
        t.check(all('something' in d.history for d in listed), 'ungridded-list-history', t.desc)
    if got is not None and kind == 'UngriddedDataList':
        t.check(not got.is_gridded and got.var_name == [d.var_name for d in got] and [c.name() for c in got.coords()] == [c.name() for c in got[0].coords()] and
                all(got.coord(c.name()) is got[0].coord(c.name()) for c in got[0].coords()), 'ungridded-list-queries', t.desc)
    if inplace is None:
        d = diff(before, shot(listed))
        t.check(d is None, 'ungridded-list-input', lambda: '%s: the list was changed: %s' % (t.desc, d))


def container(t, r):
    """the list itself"""
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    t.mark('container')
    gridded = bool(r.random() < .5)
    nv = int(r.integers(2, 6))
    fam = grid_family(r, nv) if gridded else point_family(r, nv)
    cls = GriddedDataList if gridded else UngriddedDataList
    other_cls = UngriddedDataList if gridded else GriddedDataList
    ref = fam[1]()
    lst = cls(iter(ref)) if r.random() < .5 else cls(ref)
    if type(lst) is not cls:
        t.fail('container-class', repr(type(lst)))
    ops = []
    ref = list(ref)
    t.seen('container', gridded, nv, fam[2], t.index)
    for _ in range(int(r.integers(1, 7))):
        op = str(r.choice(['slice', 'slice', 'add', 'iadd', 'append', 'append_or_extend', 'extend', 'item', 'copy', 'wrong', 'shape', 'filenames', 'deepcopy']))
        ops.append(op)
        t.describe('%s of %d: %s' % (cls.__name__, nv, ops))
        new = fam[1]()
        if op == 'slice':
            n = len(ref)
            s = slice(*[None if r.random() < .3 else int(x) for x in r.integers(-n, n + 1, 2)] + [int(r.choice([1, 1, 2, -1]))])
            ops[-1] = repr(s)
            if not ref[s]:
                continue
            lst, ref = lst[s], ref[s]
        elif op == 'add':
            lst, ref = lst + cls(new), ref + new
        elif op == 'iadd':
            lst += new
            ref = ref + new
        elif op == 'append':
            lst.append(new[0])
            ref = ref + new[:1]
        elif op == 'extend':
            lst.extend(iter(new) if r.random() < .5 else cls(new))
            ref = ref + new
        elif op == 'append_or_extend':
            x = new[0] if r.random() < .5 else cls(new)
            lst.append_or_extend(x)
            ref = ref + flat(x)
        elif op == 'item':
            i = int(r.integers(-len(ref), len(ref)))
            t.check(lst[i] is ref[i], 'container-item', t.desc)
        elif op in ('copy', 'deepcopy'):
            c = lst.copy() if op == 'copy' else copy.deepcopy(lst)
            t.check(all(a is not b for a, b in zip(c, lst)), 'container-copy-shared', t.desc)
            if t.check(type(c) is cls, 'container-class', lambda: '%s: %s' % (t.desc, type(c))):
                same(t, 'container-' + op, list(c), ref)
        elif op == 'wrong':
            x = (point_family(r, 1) if gridded else grid_family(r, 1))[1]()[0]
            bad, e = attempt(lambda: lst.append(x))
            t.mark('refused')
            t.check(isinstance(e, (TypeError, ValueError)), 'container-mixed', lambda: '%s: %r' % (t.desc, e))
            bad, e = attempt(lambda: lst.extend([x]))
            t.check(isinstance(e, (TypeError, ValueError)), 'container-mixed', lambda: '%s: %r' % (t.desc, e))
            bad, e = attempt(lambda: cls(ref[:1] + [x]))
            t.check(isinstance(e, (TypeError, ValueError)), 'container-mixed', lambda: '%s: %r' % (t.desc, e))
        elif op == 'shape':
            f2 = grid_family(r, 1) if gridded else point_family(r, 1)
            x = f2[1]()[0]
            if [c.points.shape for c in x.coords()] == [c.points.shape for c in ref[0].coords()]:
                continue
            t.mark('refused')
            bad, e = attempt(lambda: lst.append(x))
            t.check(isinstance(e, ValueError), 'container-shapes', lambda: '%s: %r' % (t.desc, e))
        elif op == 'filenames':
            t.check(list(lst.filenames) == [n for d in ref for n in d.filenames], 'container-filenames', lambda: '%s: %s' % (t.desc, lst.filenames))
            continue
        if not t.check(type(lst) is cls, 'container-class', lambda: '%s: %s' % (t.desc, type(lst))):
            return
        t.check(len(lst) == len(ref) and all(a is b for a, b in zip(lst, ref)), 'container-items', lambda: '%s: %s want %s' % (
            t.desc, [d.var_name for d in lst], [d.var_name for d in ref]))
        t.check(lst.var_name == [d.var_name for d in ref] and lst.is_gridded is gridded, 'container-names', t.desc)
        t.mark('results_compared')


def iris_case(t, r):
    """what the inherited operations give for one gridded variable, against the same for a plain cube"""
    import iris
    import iris.cube
    t.mark('iris')
    axes, make, sig = grid_family(r, 1)
    kinds = [a['kind'] for a in axes]
    g = make()[0]
    plain = iris.cube.Cube(g.data.copy(), long_name=g.long_name, var_name=g.var_name, units=g.units, attributes=dict(g.attributes),
                           dim_coords_and_dims=[(c.copy(), g.coord_dims(c)[0]) for c in g.dim_coords], aux_coords_and_dims=[(c.copy(), g.coord_dims(c)) for c in g.aux_coords])
    op = str(r.choice(['extract', 'intersection', 'interpolate', 'regrid', 'aggregated_by', 'slices', 'slices_over', 'rolling', 'index', 'copy', 'deepcopy', 'subset_coord',
                       'newdata']))
    lat = axes[kinds.index('latitude')]
    keep = op in ('index', 'copy', 'deepcopy', 'newdata')
    if op == 'extract':
        a = float(np.round(r.choice(lat['points']) + r.choice([-1000, .5, 0, 1]), 3))
        f = lambda d: d.extract(iris.Constraint(latitude=lambda c: c.point < a))
    elif op == 'intersection':
        a = limits(r, -180, 180), bool(r.random() < .5)
        f = lambda d: d.intersection(iris.coords.CoordExtent('longitude', *a[0])) if a[1] else d.intersection(longitude=tuple(a[0]))
    elif op == 'interpolate':
        a = (float(r.uniform(min(lat['points']), max(lat['points']))), bool(r.random() < .5), bool(r.random() < .5))
        f = lambda d: d.interpolate([('latitude', [a[0]])], iris.analysis.Linear() if a[1] else iris.analysis.Nearest(), collapse_scalar=a[2])
    elif op == 'regrid':
        _, mk, psig = grid_family(r, 1, kinds)
        a = (psig, bool(r.random() < .5))
        f = lambda d: d.regrid(mk()[0], iris.analysis.Linear() if a[1] else iris.analysis.Nearest())
    elif op == 'aggregated_by':
        a = str(r.choice(kinds))
        f = lambda d: d.aggregated_by(a, iris.analysis.MEAN)
    elif op in ('slices', 'slices_over'):
        a = str(r.choice(kinds))
        f = lambda d: list(getattr(d, op)(a))
    elif op == 'rolling':
        a = str(r.choice(kinds))
        f = lambda d: d.rolling_window(a, iris.analysis.MEAN, 2)
    elif op == 'index':
        a = tuple(int(r.integers(0, n)) if r.random() < .4 else slice(int(r.integers(0, n)), None) for n in (len(x['points']) for x in axes))
        f = lambda d: d[a]
    elif op == 'copy':
        a = None
        f = lambda d: d.copy()
    elif op == 'newdata':
        a = np.ma.masked_array(r.normal(size=g.shape), mask=r.random(g.shape) < .3)
        f = lambda d: d.copy(data=a.copy())
    elif op == 'deepcopy':
        a = None
        f = lambda d: copy.deepcopy(d)
    else:
        a = str(r.choice(kinds))
        f = lambda d: d.subset(d.coord(a)) if type(d) is iris.cube.Cube else iris.cube.Cube.subset(d, d.coord(a))
    t.describe('%s of %s with %r' % (op, sig, a if op != 'newdata' else 'data'))
    t.seen('iris', op, sig, repr(a))
    before = shot(g)
    (got, eg), (want, ew) = attempt(lambda: f(g)), attempt(lambda: f(plain))
    if ew is not None:
        t.mark('refused')
        t.check(type(eg) is type(ew), 'iris-' + op + '-error', lambda: '%s: %r, for a plain cube %r' % (t.desc, eg, ew))
        return
    if eg is not None:
        t.fail('iris-' + op + '-refused', '%s: %r' % (t.desc, eg))
        return
    if want is None:
        t.mark('empty_result')
    got, want = flat(got), flat(want)
    if not t.check(len(got) == len(want), 'iris-' + op + '-number', lambda: '%s: %d and %d' % (t.desc, len(got), len(want))):
        return
    own = ('class', 'filenames', 'alias', 'local_attributes')
    for x, y in zip(got, want):
        t.mark('results_compared')
        if x is None or y is None:
            t.check(x is y, 'iris-' + op + '-empty', t.desc)
            continue
        if not t.check(type(x).__name__ == 'GriddedData', 'iris-' + op + '-class', lambda: '%s: %s' % (t.desc, type(x))):
            continue
        a1, b1 = [dict((k, v) for k, v in shot(z).items() if k not in own) for z in (x, y)]
        d = diff(b1, a1)
        t.check(d is None, 'iris-' + op, lambda: '%s: %s' % (t.desc, d))
        if keep:
            t.check(list(x.filenames) == list(g.filenames) and x.alias == g.alias and sorted(x._local_attributes) == sorted(g._local_attributes), 'iris-' + op + '-lost',
                    lambda: '%s: %s %s' % (t.desc, x.filenames, x.alias))
        if op in ('copy', 'deepcopy', 'newdata', 'intersection', 'interpolate', 'regrid') and x is not g:
            # the result is usable as CIS data, and on its own
            x.add_attributes({'mark': 'x'})
            x.filenames.append('later')
            t.check('mark' not in g.attributes and 'later' not in g.filenames, 'iris-' + op + '-shared', t.desc)
    d = diff(before, shot(g))
    t.check(d is None, 'iris-' + op + '-input', lambda: '%s: the data was changed: %s' % (t.desc, d))


def case(t):
    r = t.rng
    [gridded_list, ungridded_list, iris_case, container][t.index % 4](t, r)
