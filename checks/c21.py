"""C21: programs of public operations and mutations over a pool of objects; everything not operated on in place must stay as it was."""
import hashlib
import numpy as np
from vmon import gen, snap

CASES = {'quick': 1200, 'thorough': 12000}
CASE_LIMIT = 120
RULE = 'one observation per distinct (operation, kinds of operands, single or list, options, outcome) and (mutation, kind, origin of the object) after which every other live object was compared'
REQUIRED = {'operations': 5000, 'mutations': 2500, 'comparisons': 35000, 'results': 1500, 'lists': 500, 'collocate': 350, 'aggregate': 170, 'subset': 150, 'collapse': 140, 'copy': 150,
            'save': 150, 'evaluate': 180, 'stats': 170, 'view': 450, 'file_backed': 180, 'coordinates_sample': 40, 'arithmetic': 200, 'read': 60}
ASSUMPTIONS = ['an object and the list it was put in by the user are the same object', 'refused operations must leave inputs alone too',
               'time stamps in histories are not compared between results']


class Ent(object):
    def __init__(self, name, obj, origin):
        self.name, self.obj, self.origin = name, obj, origin
        self.kind = ('list-' if isinstance(obj, list) else '') + ('g' if obj.is_gridded else 'c' if type(obj).__name__ == 'UngriddedCoordinates' else 'u')
        self.snap = snap.snap(obj)


def attrs(r):
    return {'source': 'made', 'n': 3} if r.random() < .5 else {}


def make_u(t, r, n=None, which=None, co=None, name=None):
    n = n or int(r.choice([1, 4, 9, 20]))
    which = which or [k for k in gen.STD if k in ('latitude', 'longitude') or r.random() < .4]
    co = co or gen.rand_coords(r, n, which)
    v = gen.values(r, n)
    d = gen.ungridded({k: x.copy() for k, x in co.items()}, v, name=name or str(r.choice(['aod', 'rain', 'temp'])), units=str(r.choice(['1', 'm', 'K'])), history='made by hand',
                      misc={'platform': 'x', 'list': [1, 2]} if r.random() < .6 else None)
    if r.random() < .3 and n in (4, 9, 20):
        s = {4: (2, 2), 9: (3, 3), 20: (4, 5)}[n]
        d = gen.ungridded({k: x.reshape(s).copy() for k, x in co.items()}, v.reshape(s), name=d.var_name, units=str(d.units), history='made by hand')
    d.filenames = ['in_%s.nc' % d.var_name]
    if r.random() < .5:
        d.add_attributes({'source': 'made', 'n': 3})
    return d, co


def make_g(t, r, axes=None, name=None):
    if axes is None:
        kinds = [k for k in ['time', 'altitude', 'latitude', 'longitude'] if k in ('latitude', 'longitude') or r.random() < .3]
        kinds = [str(k) for k in r.permutation(kinds)]
        bounds = r.random() < .6
        axes = [gen.axis(r, k, int(r.integers(2, 5)) if k != 'longitude' else int(r.integers(3, 6))) for k in kinds], bounds, r.random() < .3
    ax, bounds, layer = axes
    shape = tuple(len(a['points']) for a in ax)
    v = gen.values(r, int(np.prod(shape))).reshape(shape)
    aux = []
    if layer:
        from iris.coords import AuxCoord
        aux.append((AuxCoord(np.arange(shape[0]) * 1., long_name='layer', units='1', attributes={'note': 'a'}), 0))
    d = gen.cube(ax, v, name=name or str(r.choice(['aod', 'rain', 'temp'])), units=str(r.choice(['1', 'm', 'K'])), bounds=bounds, aux=aux)
    d.add_history('made by hand')
    d.filenames = ['in_%s.nc' % d.var_name]
    if r.random() < .5:
        d.add_attributes({'source': 'made', 'n': 3})
    return d, axes


def case(t):
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    r = t.rng
    pool = []
    files = {}
    u1, co = make_u(t, r)
    u2, _ = make_u(t, r, n=int(r.choice([3, 12])), which=list(co))
    g1, axes = make_g(t, r)
    g2, _ = make_g(t, r)
    g3, _ = make_g(t, r, axes, name='other')
    pool += [Ent('u1', u1, 'made'), Ent('u2', u2, 'made'), Ent('g1', g1, 'made'), Ent('g2', g2, 'made'), Ent('g3', g3, 'made')]
    if r.random() < .5:
        us = [make_u(t, r, n=len(next(iter(co.values()))), which=list(co), co=co, name=n)[0] for n in ('va', 'vb')]
        if us[0].data.shape == us[1].data.shape:
            pool.append(Ent('ul', UngriddedDataList(us), 'made'))
    if r.random() < .5:
        pool.append(Ent('gl', GriddedDataList([make_g(t, r, axes, name=n)[0] for n in ('va', 'vb')]), 'made'))
    if r.random() < .5:
        from cis.data_io.ungridded_data import UngriddedCoordinates
        pool.append(Ent('c', UngriddedCoordinates(u2.coords().copy()), 'made'))
    if r.random() < .35:
        backed(t, r, pool, files)
    count = [0]
    for step in range(int(r.integers(6, 11))):
        if r.random() < .6:
            operate(t, r, pool, count, axes, files)
        else:
            mutate(t, r, pool, pool[int(r.integers(0, len(pool)))])
        for f, h in files.items():
            t.check(digest(f) == h, 'input-file-changed', lambda: '%s: %s' % (t.desc, f))
        while len(pool) > 11:
            pool.pop(int(r.integers(0, len(pool) - 3)))


def digest(f):
    with open(f, 'rb') as h:
        return hashlib.sha1(h.read()).hexdigest()


def backed(t, r, pool, files):
    """objects read (lazily) from files"""
    from cis import read_data, read_data_list
    d, _ = make_u(t, r, n=9, which=['latitude', 'longitude', 'time'])
    f = t.path('u.nc')
    d.save_data(f)
    g, _ = make_g(t, r)
    fg = t.path('g.nc')
    g.save_data(fg)
    files[f], files[fg] = digest(f), digest(fg)
    t.mark('file_backed')
    pool.append(Ent('fu', read_data(f, d.var_name, product='cis'), 'file'))
    pool.append(Ent('fg', read_data(fg, g.var_name, product='NetCDF_Gridded'), 'file'))


def compare(t, pool, what, skip=(), mech='changed'):
    for e in pool:
        if e in skip:
            continue
        t.mark('comparisons')
        s = snap.snap(e.obj)
        d = snap.diff(e.snap, s)
        if d is not None:
            t.fail('%s' % mech, '%s: %s %s (%s) changed: %s' % (what, e.kind, e.name, e.origin, d))
            e.snap = s


def pick(r, pool, *kinds):
    m = [e for e in pool if e.kind in kinds]
    return m[int(r.integers(0, len(m)))] if m else None


OPS = ['subset', 'aggregate', 'collocate', 'collocate', 'collocate', 'collapse', 'copy', 'evaluate', 'stats', 'save', 'view', 'arithmetic', 'index', 'frame', 'read']


def operate(t, r, pool, count, axes, files):
    op = str(r.choice(OPS))
    t.describe(op)
    out = None
    args = ''
    try:
        with np.errstate(all='ignore'):
            res = globals()['op_' + op](t, r, pool, axes, files)
        if res is None:
            return
        out, used, args = res
        ok = True
    except Exception as e:
        ok = False
        t.mark('refused')
        t.notes.append('%s refused: %r' % (t.desc, e))
        args = type(e).__name__
    t.mark('operations')
    if ok:
        t.mark(op if op not in ('index', 'frame') else 'view')
    compare(t, pool, '%s %s' % (t.desc, args), mech='%s-changed-input' % op)
    t.seen('op', t.desc.split(' #')[0], ok, str(args)[:60])
    if out is None or not ok:
        return
    outs = [out] if hasattr(out, 'is_gridded') else []
    for o in outs:
        if isinstance(o, list):
            t.mark('lists')
        count[0] += 1
        t.mark('results')
        e = Ent('r%d' % count[0], o, t.desc)
        pool.append(e)
        if r.random() < .7:
            mutate(t, r, pool, e)


# ------------------------------------------------------------------------------------------- operations

def op_subset(t, r, pool, axes, files):
    e = pick(r, pool, 'u', 'g', 'list-u', 'list-g')
    k = str(r.choice(['y', 'x', 'longitude', 'latitude', 'shape', 'xy', 't']))
    d = e.obj[0] if isinstance(e.obj, list) else e.obj
    kw = {}
    if k in ('y', 'latitude', 'xy'):
        kw[k.replace('xy', 'y')] = [float(v) for v in np.sort(r.uniform(-90, 90, 2))] if r.random() < .6 else [-90., 90.]
    if k in ('x', 'longitude', 'xy'):
        lo = float(r.choice([-180., 0., -20., 100., 200., -360.]))
        kw[k.replace('xy', 'x')] = [lo, lo + float(r.choice([360., 180., 90.]))]
    if k == 'shape':
        kw['shape'] = 'POLYGON((-150 -60, 150 -60, 150 70, -150 70, -150 -60))'
    if k == 't':
        c = d._get_coord('t')
        if c is None:
            return None
        kw['t'] = [float(np.min(c.points)), float(np.max(c.points))]
    t.describe('subset %s %s #%s' % (e.kind, k, e.name))
    return e.obj.subset(**kw), [e], k


def op_aggregate(t, r, pool, axes, files):
    e = pick(r, pool, 'u', 'list-u', 'u')
    how = str(r.choice(['mean', 'moments', 'max', 'stddev', 'sum']))
    lo = float(r.choice([-180., 0.]))
    kw = dict(x=[lo, lo + 360., 60.]) if r.random() < .8 else {}
    kw['y'] = [-90., 90., 45.]
    t.describe('aggregate %s %s %s #%s' % (e.kind, how, sorted(kw), e.name))
    return e.obj.aggregate(how=how, **kw), [e], how


def op_collapse(t, r, pool, axes, files):
    e = pick(r, pool, 'g', 'list-g', 'g')
    how = str(r.choice(['mean', 'moments', 'max', 'sum', 'median', 'RMS']))
    dims = [['x'], ['y'], ['longitude', 'latitude'], ['x', 'y']][int(r.integers(0, 4))]
    t.describe('collapse %s %s %s #%s' % (e.kind, how, dims, e.name))
    return e.obj.collapsed(dims, how=how), [e], how


def op_collocate(t, r, pool, axes, files):
    a = pick(r, pool, 'u', 'g', 'list-u', 'list-g')
    b = pick(r, pool, 'u', 'g', 'c') if r.random() < .8 else pick(r, pool, 'c', 'u')
    if b.kind == 'c':
        t.mark('coordinates_sample')
    combos = {('u', 'u'): [('box', 'moments'), ('box', 'mean'), ('box', 'nn_horizontal'), ('box', 'nn_h')],
              ('u', 'g'): [('bin', 'mean'), ('bin', 'moments'), ('box', 'mean'), ('bin', 'max')],
              ('g', 'u'): [('lin', ''), ('nn', ''), ('lin', ''), ('nn', ''), ('box', 'mean')],
              ('g', 'g'): [('lin', ''), ('nn', ''), ('lin', ''), ('nn', ''), ('box', 'mean')]}[(a.kind[-1], b.kind[-1].replace('c', 'u'))]
    how, kernel = combos[int(r.integers(0, len(combos)))]
    kw = {}
    if how == 'box':
        kw['h_sep'] = float(r.choice([500., 5000., 20000.]))
    if how == 'nn' and False:
        kw['x'] = 1
    if r.random() < .3:
        kw['missing_data_for_missing_sample'] = bool(r.random() < .5)
    if r.random() < .3:
        kw['var_name'] = 'renamed'
        kw['var_units'] = 'K'
    t.describe('collocate %s onto %s %s %s #%s %s' % (a.kind, b.kind, how, kernel, a.name, b.name))
    f = r.random() < .5
    out = a.obj.collocated_onto(b.obj, how=how, kernel=kernel or None, **kw) if f else b.obj.sampled_from(a.obj, how=how, kernel=kernel or None, **kw)
    return out, [a, b], sorted(kw)


def op_copy(t, r, pool, axes, files):
    e = pick(r, pool, 'u', 'g', 'list-u', 'list-g')
    t.describe('copy %s #%s' % (e.kind, e.name))
    if isinstance(e.obj, list):
        out = e.obj.copy()
        if type(out) is list:
            return None
        return None     # python's shallow list copy holds the same items
    out = e.obj.copy()
    d = snap.diff({k: v for k, v in e.snap.items() if k not in ('filenames', 'alias')}, {k: v for k, v in snap.snap(out).items() if k not in ('filenames', 'alias')})
    t.check(d is None, 'copy-differs', lambda: '%s: %s' % (t.desc, d))
    return out, [e], ''


def op_evaluate(t, r, pool, axes, files):
    from cis.evaluate import Calculator
    e = pick(r, pool, 'u', 'g')
    n = e.obj.alias
    text = str(r.choice(['%s', '%s + 1', '-%s', 'abs(%s)', 'numpy.sqrt(%s)'])) % n
    t.describe('evaluate %s %s #%s' % (e.kind, text.replace(n, 'v'), e.name))
    return Calculator().evaluate([e.obj], text, 'calc', 'K', {'comment': 'c'} if r.random() < .5 else None), [e], ''


def op_stats(t, r, pool, axes, files):
    from cis.stats import StatsAnalyzer
    a = pick(r, pool, 'u', 'g')
    m = [e for e in pool if e.kind == a.kind and e.obj.data.shape == a.obj.data.shape]
    b = m[int(r.integers(0, len(m)))]
    t.describe('stats %s #%s %s' % (a.kind, a.name, b.name))
    StatsAnalyzer(a.obj, b.obj).analyze()
    return None, [a, b], ''


def op_save(t, r, pool, axes, files):
    e = pick(r, pool, 'u', 'g', 'list-u', 'list-g')
    t.describe('save %s #%s' % (e.kind, e.name))
    e.obj.save_data(t.path('save%d.nc' % int(r.integers(0, 10 ** 9))))
    return None, [e], ''


def op_view(t, r, pool, axes, files):
    e = pick(r, pool, 'u', 'g')
    k = str(r.choice(['points', 'nonmasked', 'coordpoints', 'str', 'repr', 'count', 'std', 'xy', 'coord']))
    t.describe('view %s %s #%s' % (e.kind, k, e.name))
    o = e.obj
    if k == 'points':
        for p in o.get_all_points():
            tuple(p)
    elif k == 'nonmasked':
        list(o.get_non_masked_points())
    elif k == 'coordpoints':
        list(o.get_coordinates_points())
    elif k in ('str', 'repr'):
        getattr(builtin(), k)(o)
    elif k == 'count' and not o.is_gridded:
        o.count()
        o.size
    elif k == 'std':
        o.find_standard_coords()
    elif k == 'coord':
        o._get_coord('x')
        o.coord('latitude')
    return None, [e], ''


def builtin():
    import builtins
    return builtins


def op_frame(t, r, pool, axes, files):
    e = pick(r, pool, 'u', 'g', 'u', 'list-u')
    t.describe('frame %s #%s' % (e.kind, e.name))
    df = e.obj.as_data_frame(copy=True)
    compare(t, pool, t.desc, mech='frame-changed-input')
    for c in df.columns:
        if df[c].dtype.kind == 'f':
            df[c].values[...] = -5.
    df.iloc[:, -1:] = -7.
    return None, [e], ''


def op_index(t, r, pool, axes, files):
    e = pick(r, pool, 'u', 'g')
    n = e.obj.data.shape
    if not n:
        return None
    key = [slice(0, max(1, n[0] - 1)), slice(None), slice(None, None, 2)][int(r.integers(0, 3))]
    t.describe('index %s %s #%s' % (e.kind, key, e.name))
    out = e.obj[key]
    return (out if hasattr(out, 'is_gridded') else None), [e], ''


def op_arithmetic(t, r, pool, axes, files):
    e = pick(r, pool, 'u')
    k = str(r.choice(['+', '*', 'neg', 'abs']))
    t.describe('arithmetic %s %s #%s' % (e.kind, k, e.name))
    import cis.maths as cm
    return {'+': lambda: e.obj + 1, '*': lambda: e.obj * e.obj, 'neg': lambda: 0 - e.obj, 'abs': lambda: cm.abs(e.obj)}[k](), [e], ''


def op_read(t, r, pool, axes, files):
    """the same file read twice gives independent objects"""
    from cis import read_data
    if not files:
        return None
    f = sorted(files)[int(r.integers(0, len(files)))]
    e = [x for x in pool if x.origin == 'file' and x.kind == ('u' if f.endswith('u.nc') else 'g')]
    if not e:
        return None
    t.describe('read %s' % e[0].kind)
    name = e[0].snap_name if hasattr(e[0], 'snap_name') else var_of(f)
    return read_data(f, name, product='cis' if f.endswith('u.nc') else 'NetCDF_Gridded'), [], ''


def var_of(f):
    import netCDF4
    with netCDF4.Dataset(f) as d:
        return [v for v in d.variables if v in ('aod', 'rain', 'temp')][0]


# ------------------------------------------------------------------------------------------- mutations

def mutate(t, r, pool, e):
    """change one object in place; nothing else may change"""
    o = e.obj
    item = ''
    siblings = None
    if isinstance(o, list):
        i = int(r.integers(0, len(o)))
        siblings = [(j, snap.snap(x)) for j, x in enumerate(o) if j != i]
        o = o[i]
        item = ' item %d' % i
    ms = ['data', 'mask', 'units', 'history', 'attributes', 'filenames', 'coord', 'lon', 'name', 'coordmeta', 'bounds', 'convert', 'misc', 'coord_list']
    if e.kind == 'c':
        ms = ['coord', 'lon', 'coordmeta', 'coord_list']
    m = str(r.choice(ms))
    t.describe('mutate %s of %s%s from %s #%s' % (m, e.kind, item, e.origin.split(' #')[0], e.name))
    try:
        with np.errstate(all='ignore'):
            done = change(r, o, m)
    except Exception as x:
        t.notes.append('%s: %r' % (t.desc, x))
        t.mark('mutation_refused')
        done = True
    if not done:
        return
    t.mark('mutations')
    t.mark('operations')
    compare(t, pool, t.desc, skip=[e], mech='shared-%s-%s' % (m, origin(e)))
    if siblings:
        for j, s in siblings:
            d = snap.diff(s, snap.snap(e.obj[j]))
            t.check(d is None, 'siblings-share-%s-%s' % (m, origin(e)), lambda: '%s also changed item %d: %s' % (t.desc, j, d))
    e.snap = snap.snap(e.obj)
    t.seen('mut', m, e.kind, e.origin.split(' #')[0])


def origin(e):
    return e.origin.split(' ')[0]


def change(r, o, m):
    g = o.is_gridded
    if m == 'data':
        o.data[...] = 4321
    elif m == 'mask':
        if np.ma.isMaskedArray(o.data):
            o.data[...] = np.ma.masked
        else:
            o.data = np.ma.masked_array(o.data, mask=np.ones(o.data.shape, bool))
    elif m == 'units':
        o.units = 'kg'
    elif m == 'history':
        o.add_history('touched')
    elif m == 'attributes':
        o.add_attributes({'touched': 'yes'})
        o.remove_attribute('source')
    elif m == 'filenames':
        o.filenames.append('touched.nc')
    elif m == 'name':
        o.var_name = 'touched'
        o.long_name = 'touched long'
        o.standard_name = None
    elif m == 'lon':
        o.set_longitude_range(float(r.choice([-180., 0., -90., 360.])))
    elif m == 'coord':
        cs = [c for c in o.coords() if c.points.dtype.kind == 'f']
        c = cs[int(r.integers(0, len(cs)))]
        if g:
            c.bounds = None
            c.points = c.points + 1
        else:
            c.data[...] = c.data + 1
    elif m == 'coordmeta':
        cs = list(o.coords())
        c = cs[int(r.integers(0, len(cs)))]
        c.var_name = 'touched'
        c.long_name = 'touched long'
        if g:
            c.attributes['touched'] = 1
        else:
            c.metadata.misc['touched'] = 1
            c.metadata.history = 'touched'
    elif m == 'bounds':
        if not g:
            return False
        for c in o.coords(dim_coords=True):
            if c.bounds is None and len(c.points) > 1:
                c.guess_bounds()
            elif c.bounds is not None:
                c.bounds = None
    elif m == 'convert':
        if g:
            return False
        o.convert_units(o.units)
        o.coord('latitude').convert_units('radians')
    elif m == 'misc':
        if g:
            o.attributes.setdefault('nested', 'x')
        else:
            o.metadata.misc['touched'] = 1
            o.metadata.misc.setdefault('list', []).append(9)
    elif m == 'coord_list':
        if g:
            return False
        cl = o.coords()
        if len(cl) < 2:
            return False
        cl.pop()
    return True
