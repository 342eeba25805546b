"""C14: file specifications against an own matcher; variables read from several synthesised files against what was written to them."""
import fnmatch
import os
import numpy as np
from vmon import gen

CASES = {'quick': 2000, 'thorough': 12000}
CASE_LIMIT = 60
RULE = ('one observation per distinct (kind of request, number and style of files, coordinates, masks, names, wildcards) judged in full')
REQUIRED = {'expansions': 100, 'expansion_errors': 10, 'files_concatenated': 200, 'values_compared': 5000, 'wildcards': 15, 'aliases': 5,
            'gridded_files': 40, 'group_variables': 30, 'coordinate_reads': 20}
ASSUMPTIONS = ['gridded files are joined along the dimension that differs, in the order of its values, as iris does', 'wildcards that match '
               'no file are not an error unless nothing matches at all', 'gridded files with differing attributes may be refused']


def expand_case(t, r):
    import cis
    from cis.data_io.data_reader import expand_filelist
    root = os.path.dirname(t.path('x'))
    names = ['f%d' % i for i in range(int(r.integers(1, 12)))] + ['data_10.nc', 'data_9.nc', 'A.nc', 'b.NC', '.hidden', 'with space.nc', 'file[1].nc', 'x}y']
    names = [str(x) for x in r.permutation(names)[:int(r.integers(2, len(names)))]]
    files, dirs = [], ['d1', 'd2']
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
        os.makedirs(os.path.join(root, d, 'f_sub'), exist_ok=True)
    for nm in names:
        d = str(r.choice(['', 'd1', 'd2']))
        p = os.path.join(root, d, nm)
        open(p, 'w').close()
        files.append(p)
    want, spec, missing, desc = [], [], False, []

    def listing(d):
        return sorted(os.path.join(d, x) for x in os.listdir(d) if os.path.isfile(os.path.join(d, x)))
    for _ in range(int(r.integers(1, 6))):
        k = str(r.choice(['file', 'file', 'dir', 'glob', 'missing'], p=[.3, .2, .2, .25, .05]))
        if k == 'file':
            p = str(r.choice(files))
            if any(c in p for c in '[]}'):
                continue                # those are wildcards
            spec.append(p)
            want.append(p)
        elif k == 'dir':
            d = os.path.join(root, str(r.choice(dirs))) + str(r.choice(['', '/']))
            spec.append(d)
            want += [os.path.join(d, x) for x in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, x))]
        elif k == 'glob':
            d = os.path.join(root, str(r.choice(['', 'd1', 'd2'])))
            pat = str(r.choice(['*', 'f*', '*.nc', 'f?', 'f[0-4]', 'f[!0-4]', '*_*.nc', 'nothing*']))
            full = os.path.join(d, pat)
            spec.append(full)
            want += [p for p in listing(d) if fnmatch.fnmatchcase(os.path.basename(p), pat) and not os.path.basename(p).startswith('.')]
        else:
            spec.append(os.path.join(root, 'no such file'))
            missing = True
        desc.append(k)
    if not spec:
        return
    once = list(dict.fromkeys(want))
    form = str(r.choice(['string', 'list', 'tuple'])) if len(spec) > 1 else str(r.choice(['string', 'list']))
    arg = ','.join(spec) if form == 'string' else list(spec) if form == 'list' else list(spec)
    t.describe('expand %s as %s' % ([s.replace(root, '') for s in spec], form))
    rel = lambda ps: [p.replace(root, '') for p in ps]
    try:
        got = expand_filelist(arg)
    except ValueError:
        t.check(missing, 'refused', t.desc)
        t.mark('expansion_errors')
        return
    t.mark('expansions')
    t.check(not missing, 'missing-file-accepted', t.desc)
    t.check(got == once, 'expansion', lambda: '%s: %s want %s' % (t.desc, rel(got), rel(once)))
    if not once:
        try:
            cis.read_data(arg, 'v')
            t.fail('nothing-read', t.desc)
        except IOError:
            pass
    if form != 'string':
        t.check(arg == spec, 'argument-changed', t.desc)
    t.seen('expand', tuple(desc), form, len(files), len(got))


def ungridded_case(t, r):
    import cis
    from cis.data_io.data_reader import DataReader
    from cis.data_io.ungridded_data import UngriddedDataList
    nf = int(r.choice([1, 2, 3, 5, 11]))
    have = [str(k) for k in r.permutation(gen.STD)[:int(r.integers(1, 6))]]
    nv = int(r.integers(1, 4))
    names = [str(x) for x in r.permutation(['aod', 'aod_err', 'temp', 'rain', 'AOD', 'a'])[:nv]]
    parts, files = [], []
    dtype = str(r.choice(['f8', 'f4', 'i4', 'i2']))
    for i in range(nf):
        n = int(r.choice([1, 2, 7, 30]))
        c = gen.rand_coords(r, n, have)
        miss = np.zeros(n, bool)
        if r.random() < .15:
            k = str(r.choice([x for x in have]))
            miss = r.random(n) < .3
            c[k] = np.ma.masked_array(c[k], mask=miss)
        vs = {}
        for nm in names:
            v = r.integers(-1000, 1000, n).astype(dtype)
            vs[nm] = np.ma.masked_array(v, mask=r.random(n) < .3) if r.random() < .5 else v
        p = t.path('part_%d.nc' % int(r.integers(0, 3) * 100 + i))
        # written with netCDF4 itself
        import netCDF4
        with netCDF4.Dataset(p, 'w') as f:
            f.source = 'CIS1.0'
            f.createDimension('obs', n)
            for k, x in c.items():
                q = f.createVariable(k, 'f8', ('obs',))
                q.standard_name, q.units = k, gen.TUNIT if k == 'time' else gen.UNITS[k]
                q[:] = x
            for nm, x in vs.items():
                q = f.createVariable(nm, dtype, ('obs',))
                q.units, q.long_name = 'K', 'long ' + nm
                q[:] = x
        parts.append((c, vs, miss))
        files.append(p)
    order = [int(i) for i in r.permutation(nf)]
    how = str(r.choice(['list', 'string', 'wild', 'dir']))
    if how in ('wild', 'dir'):
        order = sorted(range(nf), key=lambda i: files[i])
    flist = [files[i] for i in order]
    arg = {'list': flist, 'string': ','.join(flist), 'wild': os.path.join(os.path.dirname(files[0]), 'part_*.nc'),
           'dir': os.path.dirname(files[0])}[how]
    t.describe('ungridded %d files (%s), coords %s, vars %s %s, lengths %s' % (nf, how, have, names, dtype, [len(next(iter(parts[i][0].values()))) for i in order]))
    t.mark('files_concatenated', nf)

    def whole(get):
        xs = [np.ma.masked_array(get(parts[i]), copy=True)[~parts[i][2]] for i in order]
        return np.ma.concatenate(xs)
    req = str(r.choice(['one', 'each', 'list', 'wild', 'mixed', 'alias', 'group', 'coords']))
    aliases = None
    if req == 'one':
        out = {names[0]: [cis.read_data(arg, names[0])]}
        order_out = None
    elif req == 'coords':
        t.mark('coordinate_reads')
        cs = DataReader().read_coordinates(flist)
        for k in have:
            got = cs.coord(standard_name=k).data
            # points without a position are no points
            xs = np.ma.concatenate([np.ma.masked_array(parts[i][0][k])[~parts[i][2]] for i in order])
            t.check(np.asarray(got).shape == xs.shape and np.array_equal(np.ma.getdata(got), np.asarray(xs)), 'coordinates',
                    lambda: '%s %s: %s want %s' % (t.desc, k, got, xs))
        t.seen('coords', nf, how, tuple(have))
        return
    else:
        if req == 'each':
            got = [cis.read_data(arg, nm) for nm in names]
            wanted = names
        elif req == 'list':
            wanted = [str(x) for x in r.permutation(names)]
            got = list(cis.read_data_list(arg, wanted))
        elif req in ('wild', 'mixed'):
            t.mark('wildcards')
            pat = str(r.choice(['*o*', 'a*', 'aod*', '?od', '[at]*', '*']))
            pats = [pat] if req == 'wild' else [pat, str(r.choice(['*a*', 'temp', 't*', names[-1]]))]
            allv = names + have
            wanted = []
            for q in pats:
                if any(c in q for c in '*?[]'):
                    wanted += sorted(v for v in set(allv) if fnmatch.fnmatchcase(v, q))
                elif q in names:
                    wanted.append(q)
                else:
                    pats.remove(q)
                    break
            wanted = list(dict.fromkeys(wanted))
            try:
                got = list(cis.read_data_list(arg, pats if len(pats) > 1 else pats[0]))
            except ValueError:
                t.check(not wanted, 'wildcard-refused', lambda: '%s %s' % (t.desc, pats))
                return
            if len(pats) == 2 and pats[1] in names and [g.var_name for g in got].count(pats[1]) == 2:
                got = got[:-1]          # asked for by name as well: once more is no mistake
            gn = [g.var_name for g in got]
            t.check(sorted(gn) == sorted(wanted), 'wildcard-variables', lambda: '%s pattern %s: %s want %s' % (t.desc, pats, gn, wanted))
            if len(pats) == 1:
                t.check(gn == sorted(gn), 'wildcard-order', lambda: '%s %s: %s' % (t.desc, pats, gn))
            t.describe(t.desc + ' pattern %s' % pats)
            got = [g for g in got if g.var_name in names]
            wanted = [g.var_name for g in got]
        elif req == 'alias':
            t.mark('aliases')
            wanted = names
            aliases = ['alias%d' % i for i in range(len(names))]
            got = list(cis.read_data_list(arg, names, aliases=aliases))
        else:
            wanted = names
            got = list(DataReader().read_datagroups([{'filenames': flist, 'variables': [nm]} for nm in names]))
        if not t.check([g.var_name for g in got] == list(wanted), 'variables', lambda: '%s: %s want %s' % (t.desc, [g.var_name for g in got], wanted)):
            return
        out = {}
        for nm, g in zip(wanted, got):
            out.setdefault(nm, []).append(g)
        if aliases:
            for a, g in zip(aliases, got):
                t.check(g.alias == a, 'alias', lambda: '%s %r want %r' % (t.desc, g.alias, a))
        for g in got:
            t.check(list(g.filenames) == flist, 'filenames', lambda: '%s: %s' % (t.desc, g.filenames))
    for nm, gs in out.items():
        for g in gs:
            w = whole(lambda p: p[1][nm])
            d = np.ma.asarray(g.data)
            t.mark('values_compared', w.size)
            if not t.check(d.shape == w.shape, 'point-count', lambda: '%s %s: %s want %s' % (t.desc, nm, d.shape, w.shape)):
                continue
            t.check(gen.compatible(d, w, 0, 0), 'values', lambda: '%s %s: %s want %s' % (t.desc, nm, d[:6], w[:6]))
            t.check(g.long_name == 'long ' + nm and str(g.units) == 'K', 'metadata', t.desc)
            for k in have:
                wc = whole(lambda p: p[0][k])
                gc = g.coord(standard_name=k).data
                t.check(np.array_equal(np.ma.getdata(gc), np.ma.getdata(wc)), 'coordinate-values', lambda: '%s %s %s: %s want %s' % (t.desc, nm, k, gc[:5], wc[:5]))
    t.seen('ungridded', nf, how, req, tuple(have), tuple(names), dtype)


def gridded_case(t, r):
    import cis
    import iris
    from cis.data_io.gridded_data import GriddedData
    nf = int(r.choice([1, 2, 3, 4]))
    kinds = ['time'] + [str(k) for k in r.permutation(['latitude', 'longitude', 'altitude'])[:int(r.integers(1, 3))]]
    axes = [gen.axis(r, k, n=int(r.integers(2, 5))) for k in kinds]
    names = [str(x) for x in r.permutation(['aod', 'temp', 'rain'])[:int(r.integers(1, 3))]]
    per = [int(r.integers(1, 4)) for _ in range(nf)]
    times = 150000. + np.cumsum(np.round(r.uniform(.2, 2, sum(per)), 3))
    full = {nm: np.ma.masked_array(r.integers(-100, 100, (sum(per),) + tuple(len(a['points']) for a in axes[1:])).astype(float)) for nm in names}
    if r.random() < .6:
        for nm in names:
            full[nm].mask = r.random(full[nm].shape) < .2
    files, k = [], 0
    scalar = nf > 1 and r.random() < .3 and all(True for _ in per)
    if scalar:
        per = [1] * nf
        times = times[:nf]
        full = {nm: full[nm][:nf] for nm in names}
    for i in range(nf):
        sl = slice(k, k + per[i])
        k += per[i]
        cubes = []
        for nm in names:
            ta = dict(kind='time', points=times[sl], bounds=None)
            dims = [(gen.dim_coord(ta, bounds=False), 0)] + [(gen.dim_coord(a), j + 1) for j, a in enumerate(axes[1:])]
            c = iris.cube.Cube(full[nm][sl].copy(), var_name=nm, long_name='long ' + nm, units='K', dim_coords_and_dims=dims)
            cubes.append(c[0] if scalar else c)
        p = t.path('%s.nc' % ['m', 'a', 'z', 'b'][i])
        iris.save(iris.cube.CubeList(cubes), p)
        files.append(p)
    order = [int(i) for i in r.permutation(nf)]
    arg = [files[i] for i in order] if r.random() < .5 else os.path.join(os.path.dirname(files[0]), '*.nc')
    t.describe('gridded %d files %s sizes %s order %s vars %s scalar=%s' % (nf, kinds, per, order, names, scalar))
    t.mark('gridded_files', nf)
    req = str(r.choice(['each', 'list', 'wild', 'long']))
    if req == 'each':
        got = [cis.read_data(arg, nm) for nm in names]
    elif req == 'long':
        got = [cis.read_data(arg, 'long ' + nm) for nm in names]
    elif req == 'list':
        got = list(cis.read_data_list(arg, names, aliases=['x' + nm for nm in names]))
        t.check([g.alias for g in got] == ['x' + nm for nm in names], 'gridded-alias', t.desc)
    else:
        got = list(cis.read_data_list(arg, '*'))
        t.check(sorted(g.var_name for g in got) == sorted(names), 'gridded-wildcard', lambda: '%s %s' % (t.desc, [g.var_name for g in got]))
        got = sorted(got, key=lambda g: names.index(g.var_name))
    t.check(set(cis.get_variables(arg)) == set(names), 'gridded-variables', lambda: '%s %s' % (t.desc, cis.get_variables(arg)))
    for nm, g in zip(names, got):
        t.check(g.var_name == nm, 'gridded-variable', t.desc)
        w = full[nm]
        d = np.ma.asarray(g.data)
        w = w.reshape(d.shape) if scalar and nf == 1 and d.size == w.size else w
        t.mark('values_compared', w.size)
        if t.check(d.shape == w.shape, 'gridded-shape', lambda: '%s %s want %s' % (t.desc, d.shape, w.shape)):
            t.check(gen.compatible(d, w, 0, 0), 'gridded-values', lambda: '%s %s' % (t.desc, nm))
            t.check(np.allclose(np.ravel(g.coord(standard_name='time').points), times, rtol=0, atol=2e-9), 'gridded-times', t.desc)
            for a in axes[1:]:
                t.check(np.array_equal(g.coord(standard_name=a['kind']).points, a['points']), 'gridded-coords', t.desc)
    t.seen('gridded', nf, tuple(kinds), tuple(per), req, len(names), scalar)


def netcdf_case(t, r):
    """the NetCDF helpers that products build upon, with groups"""
    import netCDF4
    from cis.data_io import netcdf as nc
    from cis.exceptions import InvalidVariableError
    nf = int(r.integers(1, 4))
    groups = [str(g) for g in r.permutation(['', 'g1', 'g1/inner', 'g2', 'inner', 'g2/g1', 'g2/inner/g1'])[:int(r.integers(1, 7))]]
    content = {}
    files = []
    for i in range(nf):
        p = t.path('n%d.nc' % i)
        with netCDF4.Dataset(p, 'w') as f:
            f.createDimension('x', 3)
            f.title = 'file %d' % i
            f.createVariable('x', 'f8', ('x',))[:] = [0, 1, 2]
            for g in groups:
                where = f.createGroup(g) if g else f
                for nm in ('aa', 'bb'):
                    v = where.createVariable(nm, 'f8', ('x',))
                    x = r.normal(0, 1, 3)
                    v[:] = x
                    content[i, (g + '/' if g else '') + nm] = x
        files.append(p)
    full = sorted({k[1] for k in content})
    t.describe('netcdf groups %s files %d' % (groups, nf))
    for excl in (False, True):
        got = set(nc.get_netcdf_file_variables(files[0], exclude_coords=excl))
        t.check(got == set(full) | (set() if excl else {'x'}), 'group-variables', lambda: '%s: %s want %s' % (t.desc, sorted(got), full))
    t.check(nc.get_netcdf_file_attributes(files[0]) == {'title': 'file 0'}, 'file-attributes', t.desc)
    ask = [str(x) for x in r.permutation(full)[:int(r.integers(1, len(full) + 1))]]
    many = nc.read_many_files_individually(files, ask)
    t.check(set(many) == set(ask) and all(len(v) == nf for v in many.values()), 'many-files', lambda: '%s %s' % (t.desc, {k: len(v) for k, v in many.items()}))
    for k, vs in many.items():
        for i, v in enumerate(vs):
            t.mark('group_variables')
            t.check(np.array_equal(v[:], content[i, k]), 'group-values', lambda: '%s %s file %d' % (t.desc, k, i))
    try:
        nc.read(files[0], ['nosuch'])
        t.fail('unknown-netcdf-variable', t.desc)
    except InvalidVariableError:
        pass
    t.seen('netcdf', tuple(groups), nf, tuple(ask))


def case(t):
    r = t.rng
    k = t.index % 10
    if k < 4:
        expand_case(t, r)
    elif k < 7:
        ungridded_case(t, r)
    elif k < 9:
        gridded_case(t, r)
    else:
        netcdf_case(t, r)
