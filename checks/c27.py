"""C27: commands run through the main function of the command line, several after each other in one process, compared with the library operations applied to the same files."""
import datetime
import io
import os
import re
import numpy as np
from vmon import gen, cli

CASES = {'quick': 420, 'thorough': 5000}
CASE_LIMIT = 240
RULE = 'one observation per distinct (command, kinds of data, options, form of the file list and of the output name, position in the history of commands, outcome)'
REQUIRED = {'command_aggregate': 50, 'command_col': 200, 'command_collapse': 40, 'command_eval': 50, 'command_info': 50, 'command_stats': 45,
            'command_subset': 80, 'failing_commands': 170, 'files_compared': 450, 'histories': 450, 'library_refuses': 40, 'outputs_reused': 300}
ASSUMPTIONS = ['the library operations themselves are judged by the other properties', 'time stamps and addresses of objects in history attributes are not compared']


def preload():
    import cis.cis_main
    import cis.evaluate
    import cis.stats


def setup_worker(wdir):
    import dask
    dask.config.set(scheduler='synchronous')
    os.environ['HOME'] = os.path.join(wdir, 'home')
    os.makedirs(os.environ['HOME'])
    os.environ.pop('CIS_PLUGIN_HOME', None)


# ------------------------------------------------------------------------------------------------------------- the files

class Data(object):
    """some files with variables, and how to name them in a command"""

    def __init__(self, spec, files, names, kind, dims, product=None):
        self.spec, self.files, self.names, self.kind, self.dims, self.product = spec, files, names, kind, dims, product

    def group(self, r, names, more=()):
        """the datagroup and the product given in it"""
        opts = list(more)
        product = None
        if r.random() < .25:
            product = self.product
            opts.append('product=' + product)
        r.shuffle(opts)
        return ','.join(names) + ':' + self.spec.replace(':', '\\:') + (':' + ','.join(opts) if opts else ''), product


T0 = gen.days(datetime.datetime(2010, 1, 1))


def ungridded_files(r, w, tag, nvars, stem):
    """one or two files with some variables on the same points"""
    from cis.data_io.ungridded_data import UngriddedDataList
    which = ['latitude', 'longitude', 'time'] + (['altitude'] if r.random() < .4 else [])
    names = ['%s%s' % (stem, c) for c in 'abcd'[:nvars]]
    n = int(r.integers(8, 40))
    co = {'latitude': r.integers(-40, 41, n) / 2., 'longitude': r.integers(-60, 61, n) / 2., 'time': T0 + r.integers(0, 40, n) / 4., 'altitude': r.integers(0, 20, n) * 100.}
    vals = []
    masked = r.random() < .6
    for _ in names:
        v = np.ma.masked_array(r.integers(1, 4000, n) / 4., mask=np.zeros(n, bool))
        if masked:
            v[r.random(n) < .2] = np.ma.masked
        vals.append(v)
    parts = int(r.choice([1, 1, 2, 3]))
    cuts = [int(x) for x in np.linspace(0, n, parts + 1)]
    sub = ''
    if r.random() < .15:
        sub = 'sub_' + tag + '/'
        os.makedirs(os.path.join(w, sub))
    base = str(r.choice([tag, tag, 'a file ' + tag, 'x:' + tag]))
    if ':' in base and parts > 1:
        base = tag
    files = []
    for i in range(parts):
        f = sub + base + ('_%d' % i if parts > 1 else '') + '.nc'
        s = slice(cuts[i], cuts[i + 1])
        UngriddedDataList([gen.ungridded({k: co[k][s].copy() for k in which}, v[s].copy(), name=nm, units=str(u)) for nm, v, u in zip(names, vals, 'mKs1')]).save_data(os.path.join(w, f))
        files.append(f)
    if parts > 1:
        spec = str(r.choice([sub + base + '_*.nc', ','.join(files), sub + base + '_?.nc', sub + base + '_[0-9].nc']))
    else:
        spec = files[0] if r.random() < .7 or ':' in base else (os.path.join(w, files[0]) if r.random() < .7 else './' + files[0])
        if sub and r.random() < .3:
            spec = sub
    d = Data(spec, [os.path.join(w, f) for f in files], names, 'u', which, 'cis')
    d.n = n
    return d


def gridded_file(r, w, tag, nvars, stem):
    from cis.data_io.gridded_data import GriddedDataList
    kinds = ['latitude', 'longitude'] + (['time'] if r.random() < .5 else [])
    kinds = [str(k) for k in r.permutation(kinds)] if r.random() < .5 else kinds
    axes = []
    for k in kinds:
        n = int(r.integers(3, 6))
        p = {'latitude': np.linspace(-20, 20, n), 'longitude': np.linspace(-30, 30, n), 'time': T0 + np.arange(n) * 2.5}[k]
        step = p[1] - p[0]
        b = np.stack([p - step / 2, p + step / 2], -1)
        axes.append(dict(kind=k, points=p, bounds=b))
    names = ['%s%s' % (stem, c) for c in 'abcd'[:nvars]]
    shape = tuple(len(a['points']) for a in axes)
    cubes = []
    masked = r.random() < .5
    bounds = bool(r.random() < .6)
    for nm, u in zip(names, 'mKs1'):
        v = np.ma.masked_array(r.integers(1, 4000, shape) / 4., mask=np.zeros(shape, bool))
        if masked:
            v[r.random(shape) < .2] = np.ma.masked
        else:
            v = v.data
        cubes.append(gen.cube(axes, v, name=nm, units=str(u), bounds=bounds))
    f = str(r.choice([tag, tag, 'the ' + tag, 'x:' + tag])) + '.nc'
    GriddedDataList(cubes).save_data(os.path.join(w, f))
    return Data(f if r.random() < .7 or ':' in f else os.path.join(w, f), [os.path.join(w, f)], names, 'g', kinds, 'NetCDF_Gridded')


def read(d, names, product=None):
    from cis.data_io.data_reader import DataReader
    return DataReader().read_data_list(list(d.files), list(names), product)


def some(r, names, k=None):
    n = k or int(r.integers(1, len(names) + 1))
    return [names[int(i)] for i in sorted(r.choice(len(names), n, replace=False))]


# ------------------------------------------------------------------------------------------------------------- the commands
# each gives (argv, function of the output path which does the same with the library, description, files used)

def do_subset(r, pool):
    d = pool[int(r.integers(len(pool)))]
    names = some(r, d.names)
    dims = some(r, [k for k in d.dims])
    text, kw = [], {}
    for k in dims:
        key = {'latitude': ['y', 'latitude'], 'longitude': ['x', 'longitude'], 'time': ['t', 'time'], 'altitude': ['z', 'altitude']}[k][int(r.integers(2)) if d.kind == 'u' else 0]
        if k == 'time':
            m = r.random()
            if m < .25:
                from cis.time_util import PartialDateTime
                text.append(key + '=[2010-01-0%d]' % (1 + int(r.integers(9))))
                kw[key] = PartialDateTime(2010, 1, int(text[-1][-2]))
            else:
                a, b = sorted(int(x) for x in r.integers(0, 240, 2))
                a, b = [datetime.datetime(2010, 1, 1) + datetime.timedelta(hours=h) for h in (a, b)]
                text.append('%s=[%s,%s]' % (key, a.isoformat(), b.isoformat()))
                kw[key] = [a, b]
        elif r.random() < .1 and k != 'altitude':
            a = int(r.integers(-10, 11))
            text.append('%s=[%d]' % (key, a))
            kw[key] = [float(a), float(a)]
        else:
            lim = {'latitude': 25, 'longitude': 35, 'altitude': 2000}[k]
            a, b = sorted(float(x) / 2 for x in r.integers(-2 * lim, 2 * lim + 1, 2))
            if r.random() < .5 and b - a < lim / 2.:
                a, b = a - lim / 2., b + lim / 2.
            text.append('%s=[%s,%s]' % (key, repr(a), repr(b)))
            kw[key] = [a, b]
    if r.random() < .1 and d.kind == 'u':
        text.append('shape=POLYGON ((-20 -15, 20 -15, 20 15, -20 15, -20 -15))')
        kw['shape'] = 'POLYGON ((-20 -15, 20 -15, 20 15, -20 15, -20 -15))'
    g, product = d.group(r, names)

    def lib(out):
        o = read(d, names, product).subset(**kw)
        if o is None:
            return False
        o.save_data(out)
        return names
    return ['subset', g, ','.join(text)], lib, ('subset', d.kind, tuple(sorted(kw)), len(names)), [d], ['Subsetted']


KERN = ['mean', 'min', 'max', 'stddev', 'sum', 'moments']


def suffixes(names, kernel):
    return names if kernel not in ('moments', '') else [n + s for n in names for s in ('', '_std_dev', '_num_points')]


def do_aggregate(r, pool):
    pool = [d for d in pool if d.kind == 'u']
    d = pool[int(r.integers(len(pool)))]
    names = some(r, d.names)
    kernel = str(r.choice(KERN + ['']))
    kw, text = {}, []
    for k in some(r, d.dims[:3]):
        if k == 'time':
            n = int(r.integers(2, 6))
            kw['t'] = slice(datetime.datetime(2010, 1, 1), datetime.datetime(2010, 1, 1) + datetime.timedelta(days=2 * n), datetime.timedelta(days=2))
            text.append('t=[2010-01-01T00:00:00,%s,P2D]' % kw['t'].stop.isoformat())
        else:
            key = {'latitude': 'y', 'longitude': 'x'}[k]
            a, s, n = int(r.integers(-30, 0)), int(r.integers(5, 15)), int(r.integers(2, 6))
            kw[key] = slice(a, a + s * n, s)
            text.append('%s=[%d,%d,%d]' % (key, a, a + s * n, s))
    g, product = d.group(r, names, ['kernel=' + kernel] if kernel else [])

    def lib(out):
        data = read(d, names, product)
        data.aggregate(how=kernel or None, **kw).save_data(out)
        return suffixes(names, kernel)
    return [str(r.choice(['aggregate', 'agg'])), g, ','.join(text)], lib, ('aggregate', kernel, tuple(sorted(kw)), len(names)), [d], ['Aggregated', 'CIS version']


def do_collapse(r, pool):
    pool = [d for d in pool if d.kind == 'g' and len(d.dims) > 1]
    d = pool[int(r.integers(len(pool)))]
    names = some(r, d.names)
    kernel = str(r.choice(KERN + ['median', 'peak', 'RMS', 'gmean', '', '']))
    kernel = 'std_dev' if kernel == 'stddev' else kernel
    dims = some(r, d.dims)
    keys = [{'latitude': 'y', 'longitude': 'x', 'time': 't', 'altitude': 'z'}[k] if r.random() < .6 else k for k in dims]
    g, product = d.group(r, names, ['kernel=' + kernel] if kernel else [])

    def lib(out):
        read(d, names, product).collapsed(list(keys), how=kernel or None).save_data(out)
        return suffixes(names, kernel)
    cmd = 'collapse'
    tail = keys if r.random() < .5 else [','.join(keys)]
    if r.random() < .2:
        cmd, tail = 'aggregate', [','.join(keys)]     # deprecated, but still there
    return [cmd, g] + tail, lib, (cmd, 'gridded', kernel, len(dims), len(names)), [d], ['Collapsed', 'CIS version']


def do_eval(r, pool):
    d = pool[int(r.integers(len(pool)))]
    names = some(r, d.names, min(len(d.names), int(r.choice([1, 2, 2, 3]))))
    aliases = [nm if r.random() < .6 else 'al%d' % i for i, nm in enumerate(names)]
    expr = str(r.choice(['{0} + {1}', '{0}*2', '({0} - {1}) / 4', 'np.sqrt({0})' if False else '{0}**2', 'numpy.sqrt({0})', 'numpy.ma.masked_where({0} > 500, {1})', '{0}'])).format(aliases[0], aliases[-1])
    units = str(r.choice(['m', 'K', '1', 'kg m-3', 'm s-1']))
    groups, reads = [], []
    if len(names) > 1 and r.random() < .4:
        parts = [(names[:1], aliases[:1]), (names[1:], aliases[1:])]
    else:
        parts = [(names, aliases)]
    for ns, al in parts:
        g, product = d.group(r, [n if n == a else n + '=' + a for n, a in zip(ns, al)])
        groups.append(g)
        reads.append((ns, al, product))
    attrs = {}
    argv = ['eval'] + groups + [expr, units]
    if r.random() < .4:
        attrs = {k: v for k, v in (('comment', 'made here'), ('number', '5'), ('a_b', 'x y z'))[:int(r.integers(1, 4))]}
        argv += [str(r.choice(['-a', '--attributes'])), ','.join('%s=%s' % x for x in attrs.items())]
    var = str(r.choice(['', '', 'newname', 'q1']))

    def lib(out):
        from cis.data_io.data_reader import DataReader
        from cis.evaluate import Calculator
        datas = DataReader().read_datagroups([dict(filenames=list(d.files), variables=list(ns), aliases=list(al), product=product) for ns, al, product in reads])
        # checked against numpy here as well
        o = Calculator().evaluate(datas, expr, var or None, units, attrs)
        ns = {'numpy': np}
        for (n_, a_) in zip(names, aliases):
            ns[a_] = np.ma.asarray(read(d, [n_])[0].data)
        want = eval(expr, ns)
        if not gen.compatible(o.data, want):
            return 'the library gave %s instead of %s' % (o.data, want)
        o.save_data(out)
        return [var or 'calculated_variable']
    return argv, lib, ('eval', d.kind, expr.count('{'), len(names), len(parts), bool(attrs), bool(var)), [d], ['Evaluated', 'CIS version', expr], var


def do_col(r, pool):
    if r.random() < .6:
        src = [d for d in pool if d.kind == 'u' and 'time' in d.dims or d.kind == 'g' and len(d.dims) > 1]
    else:
        src = pool
    d = src[int(r.integers(len(src)))]
    s = pool[int(r.integers(len(pool)))]
    names = some(r, d.names)
    groups = [(d, names)]
    if r.random() < .3:
        other = [x for x in src if x.kind == d.kind and not set(x.names) & set(names)]
        if other:
            o = other[int(r.integers(len(other)))]
            groups.append((o, some(r, o.names)))
        elif len(d.names) > 1 and len(names) < len(d.names):
            groups.append((d, [n for n in d.names if n not in names]))
    allnames = [n for _, ns in groups for n in ns]
    svar = s.names[int(r.integers(len(s.names)))] if r.random() < .75 else None
    kw, opts = {}, []
    kernel = ''
    if d.kind == 'u' and s.kind == 'u':
        how = 'box'
    elif d.kind == 'u':
        how = str(r.choice(['bin', 'bin', 'box', '']))
    else:
        how = str(r.choice(['lin', 'nn', '']))
    knew = None
    if d.kind == 'u':
        kernel = str(r.choice(['mean', 'moments', '', 'nn_h', 'nn_t', 'max', 'stddev']))
        if how in ('bin', '') and kernel.startswith('nn'):
            kernel = 'mean'
        if kernel == 'moments' and r.random() < .3:
            knew = ('spread', 'count')
    if how == 'box':
        if r.random() < .8:
            h = int(r.integers(100, 1500))
            form = str(r.choice(['plain', 'km', 'm']))
            kw['h_sep'] = h
            opts.append('h_sep=' + {'plain': '%d' % h, 'km': '%dkm' % h, 'm': '%dm' % (h * 1000)}[form])
        if r.random() < .5 or not kw:
            n = int(r.integers(1, 6))
            kw['t_sep'] = 'P%dD' % n
            opts.append('t_sep=P%dD' % n)
        if 'altitude' in d.dims and 'altitude' in s.dims and r.random() < .5:
            kw['a_sep'] = 500
            opts.append('a_sep=' + str(r.choice(['500', '500m', '0.5km'])))
    if how in ('lin', 'nn') and r.random() < .6:
        e = str(r.choice(['True', 'False', 'true', 'false']))
        kw['extrapolate'] = e.lower() == 'true'
        opts.append('extrapolate=' + e)
    if how and r.random() < .3:
        kw['fill_value'] = -999.
        opts.append('fill_value=-999')
    newname = None
    if how and len(allnames) == 1 and r.random() < .4:
        newname = 'renamed'
        kw.update(var_name='renamed', var_long_name='A new name (m)', var_units='kg')
        opts += ['var_name=renamed', 'var_long_name=A new name (m)', 'var_units=kg']
    mdfms = svar is not None
    if how and r.random() < .3:
        e = str(r.choice(['True', 'False', 'true', 'FALSE']))
        mdfms = e.lower() == 'true'
        opts.append('missing_data_for_missing_sample=' + e)
    r.shuffle(opts)
    sopts = []
    if svar:
        sopts.append('variable=' + svar)
    if how:
        sopts.append('collocator=' + how + ('[' + ','.join(opts) + ']' if opts else ('[]' if r.random() < .1 else '')))
    if kernel:
        sopts.append('kernel=' + kernel + ('[stddev_name=spread,num_points_name=count]' if knew else ''))
    sprod = None
    if r.random() < .2:
        sprod = s.product
        sopts.append('product=' + sprod)
    r.shuffle(sopts)
    sg = s.spec.replace(':', '\\:') + (':' + ','.join(sopts) if sopts else '')
    gs = [x.group(r, ns) for x, ns in groups]

    def lib(out):
        from cis.data_io.data_reader import DataReader
        from cis.collocation.col_implementations import moments
        from cis.data_io.gridded_data import GriddedDataList
        from cis.data_io.ungridded_data import UngriddedDataList
        if svar is not None:
            sample = read(s, [svar], sprod)[0]
        else:
            sample = DataReader().read_coordinates(list(s.files), sprod)
        res = []
        for (x, ns), (_, product) in zip(groups, gs):
            k = moments(stddev_name='spread', num_points_name='count') if knew else (kernel or None)
            res += list(read(x, ns, product).collocated_onto(sample, how=how, kernel=k, missing_data_for_missing_sample=mdfms, **kw))
        (UngriddedDataList(res) if s.kind == 'u' else GriddedDataList(res)).save_data(out)
        base = [newname] if newname else allnames
        if d.kind == 'g' or kernel not in ('', 'moments'):
            return base
        return [b + x for b in base for x in ('', '_std_dev', '_num_points')] if not knew else None
    shape = ('col', d.kind, s.kind, how, kernel, bool(knew), svar is not None, tuple(sorted(kw)), mdfms, len(groups), len(names))
    return [str(r.choice(['col', 'collocate']))] + [g for g, _ in gs] + [sg], lib, shape, [x for x, _ in groups] + [s], ['Collocated', 'CIS version']


def do_stats(r, pool):
    pool2 = [d for d in pool if len(d.names) > 1]
    if not pool2:
        return None
    d = pool2[int(r.integers(len(pool2)))]
    names = some(r, d.names, 2)
    if r.random() < .5:
        names = names[::-1]
    if r.random() < .5:
        gs = [d.group(r, [n]) + ([n],) for n in names]
    else:
        gs = [d.group(r, names) + (names,)]

    def lib(out):
        from cis.stats import StatsAnalyzer
        from cis.data_io.gridded_data import GriddedDataList
        datas = [x for _, product, ns in gs for x in read(d, ns, product)]
        res = StatsAnalyzer(*datas).analyze()
        GriddedDataList([x.as_cube() for x in res]).save_data(out)
        lib.printed = [x.pprint() for x in res]
        return None
    return ['stats'] + [g for g, _, _ in gs], lib, ('stats', d.kind, len(gs)), [d], ['Statistical comparison', 'CIS version'] + names


def do_info(r, pool):
    d = pool[int(r.integers(len(pool)))]
    if r.random() < .4:
        def lib(out):
            import netCDF4
            from cis.data_io.products.AProduct import get_variables
            lib.printed = sorted(get_variables(list(d.files)))
            with netCDF4.Dataset(d.files[0]) as ds:
                lib.inside = set(ds.variables)
        lib.kind = 'list'
        return ['info', d.spec.replace(':', '\\:')], lib, ('info', d.kind, 'list'), [d], []
    names = some(r, d.names)
    g, product = d.group(r, names)

    def lib(out):
        from cis.data_io.products.AProduct import get_data
        lib.printed = [str(get_data(list(d.files), n, product)) for n in names]
    lib.kind = 'details'
    return ['info', g], lib, ('info', d.kind, 'details', len(names)), [d], []


def failing(r, pool, w):
    """commands which can't work: (argv, what is wrong)"""
    us, gs = [d for d in pool if d.kind == 'u'], [d for d in pool if d.kind == 'g' and len(d.dims) > 1]
    u, g = us[int(r.integers(len(us)))], gs[int(r.integers(len(gs)))]
    d = u if r.random() < .5 else g
    us_, gs_, ds_ = [x.spec.replace(':', '\\:') for x in (u, g, d)]
    v = d.names[0]
    forms = [
        (['subset', 'nosuch:' + ds_, 'x=[0,1]'], 'unknown variable'),
        (['subset', v + ',nosuch:' + ds_, 'x=[-100,100]'], 'unknown second variable'),
        (['subset', v + ':nosuchfile.nc', 'x=[0,1]'], 'missing file'),
        (['subset', v + ':' + ds_ + ',nosuchfile.nc', 'x=[-100,100]'], 'missing second file'),
        (['subset', v + ':nosuch*.nc', 'x=[0,1]'], 'pattern without files'),
        (['subset', v + ':' + ds_, 'x=[3000,3001]'], 'no data'),
        (['subset', v + ':' + ds_, 't=[1999-01-01,1999-02-01]'], 'no data in time') if 'time' in d.dims else (['subset', v + ':' + ds_, 'y=[80,85]'], 'no data'),
        (['subset', v + ':' + ds_, 'nosuchdim=[0,1]'], 'unknown dimension'),
        (['subset', v + ':' + ds_, 'x=[0,1'], 'malformed range'),
        (['subset', v + ':' + ds_, 'x=[5,1]'], 'longitudes decreasing'),
        (['subset', v + ':' + ds_, 'y=[a,b]'], 'not numbers'),
        (['subset', v + ':' + ds_], 'no limits'),
        (['subset', v + ':' + ds_, v + ':' + ds_, 'x=[0,1]'], 'two datagroups'),
        (['subset', v + ':' + ds_ + ':product=NoSuch', 'x=[0,1]'], 'unknown product'),
        (['subset', v + ':' + us_ + ':product=Aeronet', 'x=[0,1]'], 'wrong product'),
        (['subset', v + ':' + ds_ + ':kernel=mean', 'x=[0,1]'], 'option which is not for subset'),
        (['aggregate', u.names[0] + ':' + us_ + ':kernel=nosuch', 'x=[0,10,1]'], 'unknown kernel'),
        (['aggregate', u.names[0] + ':' + us_, 'x=[0,10]'], 'grid without step'),
        (['aggregate', u.names[0] + ':' + us_, 'nosuchdim=[0,10,1]'], 'unknown dimension'),
        (['aggregate', g.names[0] + ':' + gs_, 'x=[0,10,1]'], 'gridded data with a grid'),
        (['collapse', u.names[0] + ':' + us_, 'x'], 'collapse of ungridded data'),
        (['collapse', g.names[0] + ':' + gs_, 'nosuchdim'], 'unknown dimension'),
        (['collapse', g.names[0] + ':' + gs_], 'no dimension'),
        (['collapse', g.names[0] + ':' + gs_ + ':kernel=nosuch', 'x'], 'unknown kernel'),
        (['eval', v + ':' + ds_, v + ' +', '1'], 'malformed expression'),
        (['eval', v + ':' + ds_, v + ' + nosuch', '1'], 'unknown name'),
        (['eval', v + ':' + ds_, v + ' + 1'], 'no units'),
        (['eval', 'nosuch:' + ds_, 'nosuch + 1', '1'], 'unknown variable'),
        (['eval', v + '=a=b:' + ds_, 'a + 1', '1'], 'malformed alias'),
        (['eval', v + ':' + ds_, v + ':' + ds_, v + ' + 1', '1'], 'the same name twice'),
        (['eval', v + ':' + ds_, v, '1', '-a', 'novalue'], 'malformed attribute'),
        (['stats', v + ':' + ds_], 'one variable only'),
        (['stats', v + ':' + ds_, v + ':' + ds_, v + ':' + ds_], 'three variables'),
        (['stats', 'nosuch:' + ds_, v + ':' + ds_], 'unknown variable'),
        (['info', 'nosuch:' + ds_], 'unknown variable'),
        (['info', 'nosuchfile.nc'], 'missing file'),
        (['col', u.names[0] + ':' + us_, gs_ + ':collocator=nosuch'], 'unknown collocator'),
        (['col', g.names[0] + ':' + gs_, us_ + ':collocator=bin'], 'wrong collocator'),
        (['col', u.names[0] + ':' + us_, us_ + ':collocator=box[h_sep=1km],kernel=nosuch'], 'unknown kernel'),
        (['col', u.names[0] + ':' + us_, us_ + ':collocator=box[h_sep=big]'], 'malformed separation'),
        (['col', u.names[0] + ':' + us_, us_ + ':collocator=box[t_sep=soon]'], 'malformed time separation'),
        (['col', u.names[0] + ':' + us_, us_ + ':collocator=lin'], 'wrong collocator'),
        (['col', u.names[0] + ':' + us_, us_ + ':variable=nosuch,collocator=box[h_sep=1km]'], 'unknown sample variable'),
        (['col', u.names[0] + ':' + us_, 'nosuchfile.nc:collocator=box[h_sep=1km]'], 'missing sample file'),
        (['col', u.names[0] + ':' + us_, us_ + ':collocator=box[nosuchsep=1km]'], 'unknown option of the collocator'),
        (['col', u.names[0] + ':' + us_, us_ + ':nosuchoption=1'], 'unknown option'),
        (['col', u.names[0] + ':' + us_], 'no sample'),
        (['nosuchcommand', v + ':' + ds_], 'unknown command'),
        ([], 'no command'),
        (['subset', v + ':' + ds_, 'x=[-100,100]', '--nosuchflag'], 'unknown flag'),
    ]
    i = int(r.integers(len(forms)))
    argv, what = forms[i]
    return list(argv), what, i


# ------------------------------------------------------------------------------------------------------------- comparing

def normal_(text):
    text = re.sub(r'0x[0-9a-f]+', '0x', str(text))
    text = re.sub(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ', 'TIME', text)
    return re.sub(r'(\d)\.0(?![0-9])', r'\1', text)


def contents(path, w=None):
    """everything in a NetCDF file, as plain python"""
    def normal(text):
        return normal_(text) if w is None else normal_(text).replace(w + '/', '').replace('./', '')
    import netCDF4
    res = {}
    with netCDF4.Dataset(path) as ds:
        ds.set_auto_mask(False)
        ds.set_auto_scale(False)
        res['attributes'] = {k: normal(ds.getncattr(k)) for k in ds.ncattrs()}
        for n, v in ds.variables.items():
            x = v[...]
            if x.dtype.kind == 'O':
                x = x.astype(str)
            res[n] = (v.dimensions, str(v.dtype), {k: normal(v.getncattr(k)) for k in v.ncattrs()}, x.shape, x)
        res['dimensions'] = {k: len(d) for k, d in ds.dimensions.items()}
    return res


def differences(a, b):
    """between the contents of two files"""
    out = []
    if sorted(a) != sorted(b):
        return ['%s only in one, %s only in the other' % (sorted(set(a) - set(b)), sorted(set(b) - set(a)))]
    for k in ('attributes', 'dimensions'):
        if a[k] != b[k]:
            out.append('%s %s and %s' % (k, {x: v for x, v in a[k].items() if b[k].get(x) != v}, {x: v for x, v in b[k].items() if a[k].get(x) != v}))
    for n in a:
        if n in ('attributes', 'dimensions'):
            continue
        for what, x, y in zip(('dimensions', 'type', 'attributes', 'shape'), a[n], b[n]):
            if x != y:
                out.append('%s of %s: %s and %s' % (what, n, str(x)[:400], str(y)[:400]))
        x, y = a[n][4], b[n][4]
        if x.shape == y.shape:
            same = np.array_equal(x, y) if x.dtype.kind not in 'fc' else np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True)
            if not same:
                out.append('values of %s: %s and %s' % (n, str(x)[:300], str(y)[:300]))
    return out


def case(t):
    r = t.rng
    w = t.path('work')
    os.makedirs(w)
    pool = [ungridded_files(r, w, 'u1', int(r.integers(1, 4)), 'p'), ungridded_files(r, w, 'u2', int(r.integers(1, 3)), 'q'),
            gridded_file(r, w, 'g1', int(r.integers(1, 4)), 'm'), gridded_file(r, w, 'g2', int(r.integers(1, 3)), 'n')]
    history = []
    for step in range(int(r.integers(2, 6))):
        if r.random() < .25:
            argv, what, i = failing(r, pool, w)
            out = 'failed%d.nc' % step
            takes = argv and argv[0] not in ('info', 'nosuchcommand')
            full = argv + (['-o', out] if takes else [])
            pre = [str(x) for x in r.choice(['-v', '-q', '--force-overwrite', '-vv'], 1)] if r.random() < .2 else []
            before = cli.tree(w)
            res = cli.run(pre + full, w)
            t.mark('failing_commands')
            t.seen('failing', i, step, bool(pre))
            info = '%s (%s): exit %s, %s %s; before it: %s' % (pre + full, what, res['code'], res['err'][-300:], res['exc'], history)
            t.check(res['code'] != 0, 'failure-exits-successfully', info)
            t.check(res['exc'] is None, 'failure-not-handled', info)
            t.check(res['code'] == 0 or res['err'].strip() != '', 'failure-without-message', info)
            t.check(cli.changed(before, cli.tree(w)) == [], 'failure-leaves-files', 'changed %s; %s' % (cli.changed(before, cli.tree(w)), info))
            history.append(' '.join(full)[:80])
            continue
        fn = [do_subset, do_subset, do_aggregate, do_collapse, do_eval, do_col, do_col, do_col, do_col, do_stats, do_info][int(r.integers(11))]
        made = fn(r, pool)
        if made is None:
            continue
        argv, lib, shape, used, words = made[:5]
        var = made[5] if len(made) > 5 else ''
        cmd = shape[0]
        # the output
        stem = 'out_%d' % step
        name = stem
        form = str(r.choice(['ext', 'plain', 'default', 'dir', 'long'])) if cmd != 'info' else 'none'
        target = os.path.join(w, stem + '.nc')
        extra = []
        if form == 'default' and cmd != 'stats' and not var:
            target = os.path.join(w, 'out.nc')
            if os.path.exists(target):
                os.remove(target)
        elif form == 'none':
            target = None
        elif form == 'dir':
            os.makedirs(os.path.join(w, 'd%d' % step))
            target = os.path.join(w, 'd%d' % step, stem + '.nc')
            name = 'd%d/%s' % (step, stem)
        elif form == 'ext':
            name = stem + '.nc'
        elif form == 'long':
            name = target
        if target is not None and not (form == 'default' and cmd != 'stats' and not var):
            o = (var + ':' if var else '') + name
            extra = [['-o', o], ['--output', o], ['--output=' + o]][int(r.integers(3))]
        flags = [str(r.choice(['-v', '-q', '--force-overwrite', '-vv']))] if r.random() < .25 else []
        pre, post = (flags, []) if r.random() < .5 else ([], flags)
        full = pre + argv + extra + post
        desc = '%s (files %s), after %s' % (full, [os.path.basename(f) for d in used for f in d.files], history)
        t.describe(desc)
        # the library
        ref = t.path('ref_%d.nc' % step)
        old = os.getcwd()
        os.chdir(w)
        exc, names = None, None
        try:
            try:
                names = lib(ref)
            except Exception as e:
                exc = e
        finally:
            os.chdir(old)
        if isinstance(names, str):
            t.fail('library-evaluation', names + '; ' + desc)
            return
        before = cli.tree(w)
        res = cli.run(full, w)
        t.mark('commands')
        t.mark('command_' + cmd)
        t.seen(shape, form, bool(flags), step)
        history.append(' '.join(full)[:120])
        after = cli.tree(w)
        t.check(res['exc'] is None, 'failure-not-handled', '%s: %s' % (desc, res['exc']))
        if exc is not None or names is False:
            t.mark('library_refuses')
            t.notes.append('refused %s: %s' % (' '.join(full)[:200], str(exc)[:200]))
            t.check(res['code'] != 0, 'failure-exits-successfully', 'the library %s, the command succeeds; %s' % ('gives %s: %s' % (type(exc).__name__, exc) if exc else 'finds no data', desc))
            if os.path.exists(ref):
                # it is the writing itself which failed (e.g. two variables of one name): what is left then is not judged
                t.mark('refused_writing')
                if target and os.path.exists(target):
                    os.remove(target)
                continue
            t.check(cli.changed(before, after) == [], 'failure-leaves-files', 'changed %s; %s; library: %r' % (cli.changed(before, after), desc, exc))
            continue
        if not t.check(res['code'] == 0, 'command-fails', 'exit %s, %s; %s' % (res['code'], res['err'][-600:], desc)):
            continue
        t.check(cli.changed(before, after) == ([target] if target else []), 'files-changed', 'changed %s instead of %s; %s' % (cli.changed(before, after), target, desc))
        if cmd == 'info':
            lines = res['out'].splitlines()
            lines = [x for x in lines if not re.match(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+ - ', x)] if flags else lines
            if lib.kind == 'list':
                t.check(sorted(lines) == lib.printed, 'information', 'printed %s instead of %s; %s' % (lines, lib.printed, desc))
                t.check(set(d.names[0] for d in used) <= set(lines) <= lib.inside, 'information', 'printed %s of %s; %s' % (lines, lib.inside, desc))
            else:
                want = '\n'.join(lib.printed).splitlines()
                t.check([x.rstrip() for x in lines if x.strip()] == [x.rstrip() for x in want if x.strip()], 'information', 'printed %r instead of %r; %s' % (lines, want, desc))
            continue
        if not os.path.isfile(target):
            t.fail('no-output', 'no file %s; %s' % (target, desc))
            continue
        a, b = contents(target, w), contents(ref, w)
        if cmd == 'stats':
            for line in lib.printed:
                t.check(line in res['out'].splitlines(), 'statistics-printed', '%r not in %r; %s' % (line, res['out'], desc))
            a['attributes'] = {k: v for k, v in a['attributes'].items() if k != 'history'}
            b['attributes'] = {k: v for k, v in b['attributes'].items() if k != 'history'}
        diff = differences(a, b)
        t.mark('files_compared')
        t.check(not diff, 'other-result', 'command and library differ: %s; %s' % (diff[:4], desc))
        if names is not None:
            t.check(set(names) <= set(a), 'variables-missing', 'no %s among %s; %s' % (sorted(set(names) - set(a)), sorted(a), desc))
        # provenance
        c = contents(target)
        hist = [c['attributes'].get('history', '')] + [v[2].get('history', '') for k, v in c.items() if isinstance(v, tuple)]
        text = ' '.join(hist)
        t.mark('histories')
        for word in words + ([os.path.basename(f) for d in used for f in d.files] if cmd != 'subset' else []):
            t.check(word in text, 'history-incomplete', '%r not in the history %r; %s' % (word, text, desc))
        if cmd != 'stats':
            # each of the variables says what was done to it
            for n in (names or []):
                if n in c and not c['attributes'].get('history'):
                    t.check(words[0] in c[n][2].get('history', ''), 'history-incomplete', '%s has history %r; %s' % (n, c[n][2].get('history'), desc))
        # to be used again
        if cmd in ('subset', 'eval', 'col', 'aggregate', 'collapse') and names and len(pool) < 7 and form != 'default':
            kind = 'u' if c['attributes'].get('source', '').startswith('CIS') else 'g'
            names = [n for n in names if n in c]
            dims = sorted(set(k for k in ('latitude', 'longitude', 'time', 'altitude') for n, v in c.items() if isinstance(v, tuple) and v[2].get('standard_name') == k
                              and names and (kind == 'u' or v[0] == (n,) and n in c[names[0]][0])))
            if names and (kind == 'u' and {'latitude', 'longitude', 'time'} <= set(dims) or kind == 'g' and dims):
                d = Data(os.path.relpath(target, w), [target], names, kind, [k for k in ('latitude', 'longitude', 'time', 'altitude') if k in dims], 'cis' if kind == 'u' else 'NetCDF_Gridded')
                pool.append(d)
                t.mark('outputs_reused')
