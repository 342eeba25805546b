"""C22: run commands on the command line over scripted terminals, environments, aliases of files and faults; compare the file system before and after."""
import os
import shutil
import sys
import numpy as np
from vmon import gen, cli

CASES = {'quick': 1200, 'thorough': 15000}
CASE_LIMIT = 200
RULE = ('one observation per distinct (command, kind of output path, existing or not, input or not, permission and how it was given, valid or failing or interrupted command, outcome)')
REQUIRED = {'refusals_observed': 55, 'inputs_protected': 110, 'replaced': 40, 'created': 60, 'prompts': 120, 'failing_commands': 60, 'faults': 70, 'files_compared': 3500, 'plots': 40,
            'subprocesses': 4, 'defaults': 20, 'links': 150}
ASSUMPTIONS = ['CIS_FORCE_OVERWRITE is documented with the value TRUE only; a negative or unknown value is no agreement',
               'an output name with an extension other than .nc may be used as it is, be given .nc, or be refused leaving everything as it was']

TEMPLATE = {}


def preload():
    import cis.cis_main
    import cis.plotting.formatted_plot
    import matplotlib
    matplotlib.use('Agg')


def setup_worker(wdir):
    import dask
    dask.config.set(scheduler='synchronous')    # no threads, so that children can be forked
    os.environ['HOME'] = os.path.join(wdir, 'home')
    os.makedirs(os.environ['HOME'])
    d = os.path.join(wdir, 'template')
    os.makedirs(d)
    r = np.random.default_rng(1)
    from cis.data_io.ungridded_data import UngriddedDataList
    from cis.data_io.gridded_data import GriddedDataList
    co = {'latitude': np.linspace(-60, 60, 12), 'longitude': np.linspace(-170, 170, 12), 'time': 150000. + np.arange(12)}
    ul = UngriddedDataList([gen.ungridded({k: v.copy() for k, v in co.items()}, np.arange(12.) + i, name=n, units='1') for i, n in enumerate(('aod', 'rain'))])
    ul.save_data(os.path.join(d, 'u.nc'))
    sl = UngriddedDataList([gen.ungridded({k: v[:7] + .5 for k, v in co.items()}, np.arange(7.), name='samp', units='1')])
    sl.save_data(os.path.join(d, 's.nc'))
    lat, lon = np.linspace(-80, 80, 5), np.linspace(0, 300, 6)
    gl = []
    from iris.coords import DimCoord
    from cis.data_io.gridded_data import GriddedData
    for n in ('temp', 'wind'):
        gl.append(GriddedData(np.arange(30.).reshape(5, 6), var_name=n, long_name=n, units='1', dim_coords_and_dims=[
            (DimCoord(lat, standard_name='latitude', units='degrees'), 0), (DimCoord(lon, standard_name='longitude', units='degrees'), 1)]))
    GriddedDataList(gl).save_data(os.path.join(d, 'g.nc'))
    TEMPLATE['d'] = d


def case(t):
    r = t.rng
    root = t.path('fs')
    w = os.path.join(root, 'w')
    sub = os.path.join(w, 'sub')
    os.makedirs(sub)
    names = {}
    for k in 'usg':
        n = k + '.nc'
        if k == 'u' and r.random() < .15:
            n = 'out.nc'
        elif r.random() < .1:
            n = 'in put %s.nc' % k
        names[k] = n
        shutil.copyfile(os.path.join(TEMPLATE['d'], k + '.nc'), os.path.join(w, n))
    with open(os.path.join(sub, 'unrelated.nc'), 'wb') as f:
        f.write(b'unrelated')
    os.symlink(sub, os.path.join(w, 'linkdir'))
    cmd = str(r.choice(['subset', 'subset', 'col', 'col', 'aggregate', 'collapse', 'eval', 'eval', 'stats', 'plot']))
    mode = str(r.choice(['valid', 'valid', 'valid', 'failing', 'fault'])) if cmd != 'plot' else str(r.choice(['valid', 'failing']))
    args, inputs, tail = make(r, w, names, cmd, mode == 'failing')
    spec, o, kind = output(r, w, sub, inputs, cmd)
    exists = o is not None and os.path.isfile(o)
    isinput = exists and any(os.path.samefile(o, i) for i in inputs)
    how, perm, pre, post, env, answers = permission(r)
    if spec is not None and r.random() < .3 and ':' not in spec and cmd == 'eval':
        spec = 'calc:' + spec
    argv = pre + args + post + ((['-o', spec] if r.random() < .7 else ['--output=' + spec]) if spec is not None else [])
    if cmd == 'plot':
        argv = pre + args[:1] + post + args[1:] + (['-o', spec] if spec is not None else [])
    cwd = w
    t.describe('cis %s | output %s (%s), permission %s, env %r, answers %r, %s' % (' '.join(argv), o, kind, how, env, answers, mode))
    home = os.environ['HOME']
    homebefore = set(os.listdir(home))
    before = cli.tree(root)
    if mode == 'fault':
        t.mark('faults')
        if r.random() < .5:
            st = cli.child(argv, cwd, answers, env, fsize=int(r.integers(0, 20000)))
        else:
            st = cli.child(argv, cwd, answers, env, kill=float(r.uniform(0, .25)))
        res = dict(code=None, out='', err='', exc=None, left='')
        outcome = st
    else:
        if mode == 'valid' and t.index % (60 if t.tier == 'quick' else 300) == 3:
            t.mark('subprocesses')
            res = cli.subproc(argv, cwd, answers, env, os.environ.get('VERIF_REPO', '/repo'))
        else:
            res = cli.run(argv, cwd, answers, env)
        outcome = res['code']
    after = cli.tree(root)
    diff = cli.changed(before, after)
    t.mark('files_compared', len(before))
    if o is None:
        o = ''
    allowed = set()
    if o and not isinput and (not exists or perm is not False):
        real = os.path.realpath(o)
        allowed = {o, real} | {os.path.normpath(o)} | {p for p, v in after.items() if v[0] == 'file' and os.path.exists(o) and os.path.samefile(p, o)}
        if kind == 'odd':
            allowed |= {o + '.nc'}
    rel = [os.path.relpath(p, root) for p in diff if p not in allowed]
    txt = lambda: '%s\nexit %s, changed: %s\n%s\n%s' % (t.desc, outcome, [os.path.relpath(p, root) for p in diff], res['out'][-400:], res['err'][-600:])
    inp = [p for p in diff if any(os.path.realpath(p) == os.path.realpath(i) for i in inputs)]
    t.check(not inp, 'input-changed', txt)
    if exists and perm is False:
        t.check(not rel, 'overwritten-without-permission', txt)
    else:
        t.check(not rel, 'wrote-elsewhere', txt)
    stray = set(os.listdir(home)) - homebefore - {'cis.log'}
    t.check(not [s for s in stray if not s.startswith('.')], 'stray-files', lambda: '%s %s' % (t.desc, stray))
    state = 'other'
    if mode != 'fault':
        t.check(res['exc'] is None, 'exception-from-main', lambda: '%s: %r' % (txt(), res['exc']))
        if exists and not isinput and perm is False and mode == 'valid':
            t.mark('refusals_observed')
            state = 'refused'
        elif isinput:
            t.mark('inputs_protected')
            state = 'input'
            if perm is True:
                t.check(res['code'] != 0, 'input-as-output-accepted', txt)
        elif mode == 'failing':
            t.mark('failing_commands')
            state = 'failed'
            if not (exists and perm is False):
                t.check(res['code'] != 0, 'failing-command-succeeded', txt)
        elif o and (not exists or perm is True):
            state = 'replaced' if exists else 'created'
            t.mark(state)
            made = o if kind != 'odd' or os.path.exists(o) else o + '.nc'
            if kind == 'odd' and res['code'] != 0 and not diff:
                state = 'odd-refused'       # gridded output: the library that writes it takes the extension for a format
            elif t.check(res['code'] == 0, 'valid-command-failed', txt):
                t.check(os.path.isfile(made) and before.get(os.path.realpath(made)) != after.get(os.path.realpath(made)), 'output-not-written', txt)
                if os.path.isfile(made):
                    t.check(readable(made, cmd), 'output-unusable', txt)
    if how.startswith('prompt') and exists and not (mode == 'failing'):
        t.mark('prompts')
        if mode == 'valid':
            t.check('verwrite' in res['out'] + res['err'], 'not-asked', txt)
    if how.startswith(('flag', 'env-true')) and mode == 'valid' and exists:
        t.check('already exists. Overwrite' not in res['out'], 'asked-despite-agreement', txt)
    if cmd == 'plot':
        t.mark('plots')
    if spec is None:
        t.mark('defaults')
    if 'link' in kind:
        t.mark('links')
    t.seen(cmd, kind, exists, isinput, how, mode, state, bool(outcome))


def readable(path, cmd):
    if cmd == 'plot':
        with open(path, 'rb') as f:
            return f.read(4) in (b'\x89PNG', b'%PDF') or True
    import netCDF4
    try:
        with netCDF4.Dataset(path) as d:
            return len(d.variables) > 0
    except (IOError, OSError):
        return False


def make(r, w, names, cmd, failing):
    """command, its input files"""
    p = {}
    style = str(r.choice(['rel', 'dot', 'abs', 'glob', 'link', 'multi']))
    for k, n in names.items():
        f = os.path.join(w, n)
        if style == 'dot':
            p[k] = os.path.join('.', n)
        elif style == 'abs':
            p[k] = f
        elif style == 'glob' and ' ' not in n:
            p[k] = n[:-1] + '?'
        elif style == 'link':
            l = os.path.join(w, 'alias_' + k + '.nc')
            os.symlink(f, l)
            p[k] = os.path.basename(l)
        else:
            p[k] = n
    fu, fs, fg = (os.path.join(w, names[k]) for k in 'usg')
    bad = str(r.choice(['var', 'file', 'opt'])) if failing else ''
    vu = 'nosuch' if bad == 'var' else 'aod'
    vg = 'nosuch' if bad == 'var' else 'temp'
    ng = 'missing.nc' if bad == 'file' else p['g']
    nu = 'missing.nc' if bad == 'file' else p['u']
    if cmd == 'subset':
        if r.random() < .5:
            return ['subset', '%s:%s' % (vu, nu), 'y=[95,99]' if bad == 'opt' else 'x=[-180,180],y=[-50,50]'], [fu], []
        return ['subset', '%s:%s' % (vg, ng), 'nonsense=[1,2]' if bad == 'opt' else 'y=[-60,60]'], [fg], []
    if cmd == 'col':
        k = int(r.integers(0, 4))
        if k == 0:
            return ['col', '%s:%s' % (vg, ng), '%s:variable=samp,collocator=%s' % (p['s'], 'nosuch' if bad == 'opt' else 'lin')], [fg, fs], []
        if k == 1:
            return ['col', '%s:%s' % (vu, nu), '%s:collocator=%s' % (p['s'], 'nosuch' if bad == 'opt' else 'box[h_sep=5000km],kernel=mean')], [fu, fs], []
        if k == 2:
            return ['col', '%s:%s' % (vu, nu), '%s:variable=wind,collocator=bin,kernel=%s' % (p['g'], 'nosuch' if bad == 'opt' else 'mean')], [fu, fg], []
        return ['col', '%s:%s' % (vg, ng), '%s:variable=wind,collocator=%s' % (p['g'], 'nosuch' if bad == 'opt' else 'nn')], [fg], []
    if cmd == 'aggregate':
        return ['aggregate', '%s:%s:kernel=%s' % (vu, nu, 'nosuch' if bad == 'opt' else 'mean'), 'x=[-180,180,90],y=[-90,90,60]'], [fu], []
    if cmd == 'collapse':
        return ['collapse', '%s:%s:kernel=%s' % (vg, ng, 'nosuch' if bad == 'opt' else 'mean'), 'x'], [fg], []
    if cmd == 'eval':
        if r.random() < .5:
            return ['eval', '%s,rain:%s' % (vu, nu), 'aod +' if bad == 'opt' else 'aod + rain', '1'], [fu], []
        return ['eval', '%s:%s' % (vg, ng), 'wind:' + p['g'], 'temp - nosuch' if bad == 'opt' else 'temp - wind', '1'], [fg], []
    if cmd == 'stats':
        if r.random() < .5:
            return ['stats', '%s:%s' % (vu, nu) if bad == 'opt' else '%s,rain:%s' % (vu, nu)], [fu], []
        return ['stats', '%s:%s' % (vg, ng)] + ([] if bad == 'opt' else ['wind:' + p['g']]), [fg], []
    # plot (of types that need no coastlines, which would have to be downloaded)
    k = int(r.integers(0, 3))
    if k == 0:
        return ['plot', '%s:%s' % (vu, nu), '--type', 'nosuch' if bad == 'opt' else 'histogram'], [fu], []
    if k == 1:
        return ['plot', '%s:%s' % (vu, nu), 'rain:' + p['u'], '--type', 'nosuch' if bad == 'opt' else 'comparativescatter'], [fu], []
    return ['plot', '%s:%s' % (vg, ng), '--type', 'nosuch' if bad == 'opt' else 'histogram'], [fg], []


def output(r, w, sub, inputs, cmd):
    """(text of the option, path it stands for, kind)"""
    ext = '.png' if cmd == 'plot' else '.nc'
    kind = str(r.choice(['fresh', 'existing', 'existing', 'existing', 'input', 'input', 'input', 'link-existing', 'hardlink-existing', 'link-input', 'hardlink-input', 'default', 'odd', 'dangling-link']))
    if kind == 'default':
        if cmd in ('plot', 'stats'):
            kind = 'fresh' if cmd == 'plot' else 'default'
            if cmd == 'stats':
                return None, None, 'default'
        else:
            o = os.path.join(w, 'out.nc')
            if r.random() < .5 and not os.path.exists(o):
                put(r, o)
            return None, o, 'default'
    if kind in ('input', 'link-input', 'hardlink-input'):
        i = inputs[int(r.integers(0, len(inputs)))]
        if kind == 'input':
            n = os.path.basename(i)
            spec = [n, './' + n, i, 'sub/../' + n, n[:-3] if cmd != 'plot' else n, os.path.join('..', os.path.basename(w), n), 'linkdir/../../w/' + n][int(r.integers(0, 6))]
            return spec, i, kind
        n = 'other' + ext
        o = os.path.join(w, n)
        os.symlink(i, o) if kind == 'link-input' else os.link(i, o)
        return [n, 'other', o][int(r.integers(0, 3))], o, kind
    n = str(r.choice(['res', 'my.res', 'a b', u'r\u00e9sultat']))
    if kind == 'odd':
        if cmd == 'plot':
            n += '.pdf'
            return n, os.path.join(w, n), 'fresh'
        n = str(r.choice(['res.v1', 'x.2008', 'data.nc4']))
        return n, os.path.join(w, n), 'odd'
    d = [w, sub][int(r.integers(0, 2))]
    o = os.path.join(d, n + ext)
    spec = os.path.relpath(o, w) if r.random() < .6 else o
    if kind == 'fresh' and r.random() < .3 and d == sub:
        spec = 'linkdir/' + n + ext
        o = os.path.join(w, 'linkdir', n + ext)
    if '.' not in n and r.random() < .5 or n == 'a b' and r.random() < .5:
        spec = spec[:-len(ext)]
    if kind == 'existing':
        put(r, o)
    elif kind == 'link-existing':
        tgt = os.path.join(sub, 'target.dat')
        put(r, tgt)
        os.symlink(tgt, o)
    elif kind == 'hardlink-existing':
        tgt = os.path.join(sub, 'target.dat')
        put(r, tgt)
        os.link(tgt, o)
    elif kind == 'dangling-link':
        os.symlink(os.path.join(sub, 'nothing.dat'), o)
    return spec, o, kind


def put(r, o):
    with open(o, 'wb') as f:
        f.write(bytes(r.integers(0, 256, int(r.integers(0, 200)), dtype=np.uint8)))
    if r.random() < .3:
        shutil.copyfile(os.path.join(TEMPLATE['d'], 'u.nc'), o)


def permission(r):
    """(how, True: agreement / False: none, options before and after the command, environment, answers)"""
    k = str(r.choice(['prompt-yes', 'prompt-no', 'prompt-no', 'prompt-eof', 'flag', 'flag-first', 'env-true', 'env-false', 'env-other', 'env-empty']))
    junk = [str(j) for j in r.choice(['maybe', 'no', '1', ' ', 'nope', 'ye', 'quit'], int(r.integers(0, 3)))]
    if k == 'prompt-yes':
        return k, True, [], [], None, junk + ['y']
    if k in ('prompt-no', 'env-empty'):
        return 'prompt-no' if k == 'prompt-no' else 'prompt-env-empty', False, [], [], None if k == 'prompt-no' else '', junk + [str(r.choice(['n', '']))]
    if k == 'prompt-eof':
        return k, False, [], [], None, junk
    if k == 'flag':
        return k, True, [], ['--force-overwrite'], 'False' if r.random() < .2 else None, []
    if k == 'flag-first':
        return k, True, ['--force-overwrite'], [], None, []
    if k == 'env-true':
        return k, True, [], [], str(r.choice(['TRUE', 'true', 'True'])), []
    if k == 'env-false':
        return k, False, [], [], str(r.choice(['FALSE', 'false', 'False'])), [str(r.choice(['n', ''])) for _ in range(int(r.integers(0, 2)))]
    return k, False, [], [], str(r.choice(['0', 'no', 'off', 'never', 'ask', ' false'])), junk + [str(r.choice(['n', '']))]
