"""C26: which reader is chosen for a file, and which plugins are found.  Each case runs in a forked child with its own plugin directories made of generated
files; what cis finds and chooses is compared with what the description of those files says."""
import json
import os
import re
import sys
import traceback
import numpy as np
from vmon import gen

CASES = {'quick': 1200, 'thorough': 12000}
CASE_LIMIT = 120
RULE = 'one observation per distinct (make-up of the plugin directory, question asked, candidates and their priorities) compared with the description of the plugins'
REQUIRED = {'same_class_name': 200, 'documented_names': 900, 'selections': 5000, 'selected_plugin': 450, 'selected_builtin': 1800, 'refused_content': 2000, 'no_product': 3000, 'explicit': 3000,
            'explicit_unknown': 1500, 'several_files': 430, 'broken_files': 450, 'abstract_classes': 400, 'finds': 6000, 'kernels': 3000, 'shuffled': 600,
            'second_directory': 120, 'ties': 110, 'colliding_name': 30, 'data_read': 90, 'parsed': 700, 'added_later': 180}
ASSUMPTIONS = ['a product or kernel which is asked for by name has a unique name', 'among accepting products of equal priority any may be chosen, but always the same one',
               'plugins do not exit the interpreter when imported']
BUILTIN = {}
PARENTS = {'AProduct': ('cis.data_io.products.AProduct', 'cis.data_io.products'), 'Kernel': ('cis.collocation.col_framework', 'cis.collocation.col_implementations'),
           'Collocator': ('cis.collocation.col_framework', 'cis.collocation.col_implementations'),
           'Constraint': ('cis.collocation.col_framework', 'cis.collocation.col_implementations')}


def parent(name):
    import importlib
    return getattr(importlib.import_module(PARENTS[name][0]), name)


def preload():
    os.environ.pop('CIS_PLUGIN_HOME', None)
    from cis.plugin import find_plugin_classes
    for k in PARENTS:
        BUILTIN[k] = {c.__name__: c for c in find_plugin_classes(parent(k), PARENTS[k][1], False)}


# ------------------------------------------------------------------------------------------------------------- generated plugins

EXTS = ['xyz', 'dat', 'nc', 'txt', 'hdf', 'XYZ', 'csv']


def signatures(r):
    stem = str(r.choice(['AAA', 'BBB', 'aaa', '.*', 'A', '[AB]+', '(AAA|BBB)', r'\d+_.*', 'AAA.*']))
    ext = str(r.choice(['xyz', 'dat', 'nc', '(xyz|dat)', 'txt', '.*']))
    sig = stem + r'.*\.' + ext
    k = r.random()
    if k < .15:
        return [sig, str(r.choice(['BBB', 'AAA'])) + r'\.' + str(r.choice(['csv', 'xyz']))]
    if k < .25:
        return [r'AAA.*\.xyz|BBB.*\.dat']          # any of two expressions, in one
    if k < .3:
        return [sig + '$']
    if k < .34:
        return []
    return [sig]


def file_name(r):
    stem = str(r.choice(['AAA', 'BBB', 'aaa', 'AAAA_1', '12_AAA', 'BAB', 'zzz', 'A.B', 'xAAA', 'AAA.xyz', 'BBB.dat', 'CAL_LID_L1', 'abcdef.pd1234']))
    n = stem + str(r.choice(['', '', '_2010', '.1'])) + '.' + str(r.choice(EXTS))
    if r.random() < .1:
        n += str(r.choice(['.bak', '~', 'x', '\n']))
    return n


class Spec(object):
    """one plugin class"""

    def __init__(self, name, kind, base=None, priority=None, sigs=(), reject=None, abstract=None, mixin=False, sub_builtin=None):
        self.name, self.kind, self.base, self.priority, self.sigs, self.reject = name, kind, base, priority, sigs, reject
        self.abstract, self.mixin, self.sub_builtin = abstract, mixin, sub_builtin

    def source(self):
        base = self.base.name if self.base is not None else (self.sub_builtin or self.kind)
        out = ['class %s(%s%s):' % (self.name, 'Mixin, ' if self.mixin else '', base)]
        if self.kind == 'AProduct':
            if self.priority is not None:
                out.append('    priority = %d' % self.priority)
            if self.abstract != 'missing':
                out += ['    def create_data_object(self, filenames, variable):', '        return make(self, variable)',
                        '    def create_coords(self, filenames):', '        return make(self, "coords")',
                        '    def get_variable_names(self, filenames, data_type=None):', '        return set([type(self).__name__])']
                out += ['    def get_file_signature(self):', '        return %r' % (list(self.sigs),)]
            if self.reject is not None:
                out += ['    def get_file_type_error(self, filename):', '        import re',
                        '        return %r if re.search(%r, filename) else None' % (['not mine'], self.reject)]
            elif self.base is not None or self.sub_builtin:
                out += ['    def get_file_type_error(self, filename):', '        return None']
        elif self.kind == 'Kernel':
            if self.abstract != 'missing':
                if list(chain(self))[-1].sub_builtin == 'AbstractDataOnlyKernel':
                    out += ['    def get_value_for_data_only(self, values):', '        return 100. * len(values)']
                else:
                    out += ['    def get_value(self, point, data):', '        return 100. * len(data)']
        elif self.kind == 'Collocator':
            if self.abstract != 'missing':
                out += ['    def collocate(self, points, data, constraint, kernel):', '        return []']
        else:
            if self.abstract != 'missing':
                out += ['    def constrain_points(self, point, data):', '        return data']
        out.append('    marker = %r' % self.name)
        return '\n'.join(out) + '\n'


HEAD = '''import numpy as np
from cis.data_io.products.AProduct import AProduct
from cis.collocation.col_framework import Kernel, AbstractDataOnlyKernel, Collocator, Constraint
from cis.data_io.ungridded_data import UngriddedData, Metadata
from cis.data_io.Coord import Coord, CoordList
{more}

class Mixin(object):
    pass


def make(self, variable):
    coords = CoordList([Coord(np.arange(3.), Metadata(name='lat', standard_name='latitude', units='degrees'), 'Y')])
    return UngriddedData(np.arange(3.) + 1, Metadata(name=variable, long_name=type(self).__name__, units='1'), coords)


'''
DISTRACT = ['''class Helper(object):
    """not a plugin, though the names of its bases look like it"""
    name = 'KernelAProduct'


class AProductHelper(object):
    pass


class NotAPlugin(AProductHelper):
    pass


class KernelHelper(object):
    pass


class NotAKernel(KernelHelper):
    pass


class ConstraintError(ValueError):
    pass


class NotAConstraint(ConstraintError):
    pass
''', 'a_dictionary = {1: 2}\nimport collections\nfrom datetime import datetime, timedelta\n', 'import sys\nlogging = None\n', '''def function(AProduct=None):
    return AProduct
''']
BROKEN = ['this is not python\n', 'import a_module_which_does_not_exist\n', 'raise RuntimeError("broken plugin")\n', 'from cis.data_io.products.AProduct import NoSuchThing\n',
          '1 / 0\n', 'class Half(AProduct:\n', 'x = undefined_name\n', '\x00', 'assert False\n']


def make_specs(r, tag):
    out = []
    n = int(r.integers(0, 7))
    for i in range(n):
        kind = str(r.choice(['AProduct', 'AProduct', 'AProduct', 'Kernel', 'Collocator', 'Constraint']))
        name = '%s%s%d%s' % (str(r.choice(['Prod', 'prod', 'Zed', 'Abs', 'AProd', '_P', 'P'])), kind[:2], i, tag)
        abstract = None
        if r.random() < .25:
            abstract = str(r.choice(['named', 'missing', 'both']))
            if abstract in ('named', 'both'):
                name = str(r.choice(['Abstract', 'abstract'])) + name
            if abstract == 'both':
                abstract = 'missing'
        sub, base = None, None
        pool = [s for s in out if s.kind == kind]
        if pool and r.random() < .4:
            base = pool[int(r.integers(len(pool)))]
        elif kind == 'Kernel' and r.random() < .5:
            sub = str(r.choice(['AbstractDataOnlyKernel', 'AbstractDataOnlyKernel', 'cis.collocation.col_implementations.moments', 'cis.collocation.col_implementations.nn_h']))
        elif kind == 'AProduct' and r.random() < .2:
            sub = str(r.choice(['cis.data_io.products.Caliop_L2', 'cis.data_io.products.NetCDF_Gridded', 'cis.data_io.products.cis']))
        elif kind == 'Collocator' and r.random() < .2:
            sub = 'cis.collocation.col_implementations.DummyCollocator'
        up = list(chain(base)) if base is not None else []
        root = up[-1].sub_builtin if up else sub
        inherited_concrete = any(c.abstract != 'missing' for c in up) or (root is not None and not root.startswith('Abstract'))
        if abstract == 'missing' and inherited_concrete and not name.lower().startswith('abstract'):
            abstract = None                    # has inherited all it needs
        s = Spec(name, kind, base, int(r.choice([5, 10, 10, 15, 20, 50, 100, 150])) if r.random() < .8 else None, signatures(r),
                 str(r.choice(['AAA', 'bad', r'2010', 'BBB', 'xyz'])) if r.random() < .4 else None, abstract, r.random() < .15 and base is None, sub)
        s.is_abstract = bool(abstract)
        out.append(s)
    return out


def chain(s):
    while s is not None:
        yield s
        s = s.base


def prop(s, what):
    """an attribute of a product of the plugins, which it may have inherited"""
    for c in chain(s):
        if what == 'priority' and c.priority is not None:
            return c.priority
        if what == 'sigs' and c.abstract != 'missing':
            return c.sigs
        if what == 'reject' and (c.reject is not None or c.base is not None or c.sub_builtin):
            return c.reject
    last = list(chain(s))[-1]
    if last.sub_builtin:
        b = BUILTIN['AProduct'][last.sub_builtin.split('.')[-1]]
        return b.priority if what == 'priority' else b().get_file_signature() if what == 'sigs' else None
    return {'priority': 10, 'sigs': [], 'reject': None}[what]


def write_dir(r, d, specs, order_seed, t, extras):
    """spread the classes over files: a class and its base have to be in the same file"""
    rr = np.random.default_rng(order_seed)
    os.makedirs(d, exist_ok=True)
    groups = {}
    for s in specs:
        groups.setdefault(list(chain(s))[-1].name, []).append(s)
    files = []
    names = extras['names']
    keys = sorted(groups)
    rr.shuffle(keys)
    used = [n for n in names]
    rr.shuffle(used)
    nfiles = max(1, int(rr.integers(1, max(2, len(keys) + 1))))
    content = [[] for _ in range(nfiles)]
    for k in keys:
        content[int(rr.integers(nfiles))].append(k)
    for i, ks in enumerate(content):
        body = HEAD.format(more='import cis.data_io.products\nimport cis.collocation.col_implementations\n')
        for x in extras['distract']:
            if rr.random() < .6:
                body += x + '\n\n'
        for k in ks:
            body += '\n\n'.join(s.source() for s in groups[k]) + '\n\n'
        fn = used[i % len(used)] + ('' if i < len(used) else str(i))
        with open(os.path.join(d, fn + '.py'), 'w') as f:
            f.write(body)
        files.append(fn)
    for i, b in enumerate(extras['broken']):
        with open(os.path.join(d, '%sbroken%d%s.py' % (str(rr.choice(['a', 'z', 'm'])), i, extras['tag'])), 'w') as f:
            f.write(b)
    for k in extras['junk']:
        if k == 'dir':
            os.makedirs(os.path.join(d, 'directory.py'), exist_ok=True)
        elif k == 'hidden':
            open(os.path.join(d, '.#hidden%s.py' % extras['tag']), 'w').write('lock file of an editor\n')
        elif k == 'text':
            open(os.path.join(d, 'README.txt'), 'w').write('class X(AProduct): pass\n')
        elif k == 'init':
            open(os.path.join(d, '__init__.py'), 'w').write('')
        elif k == 'pyc':
            open(os.path.join(d, 'something.pyc'), 'wb').write(b'nothing')
        elif k == 'dash':
            open(os.path.join(d, 'with-dash%s.py' % extras['tag']), 'w').write('x = 1\n')
    return files


def extras(r, tag):
    names = ['plug_one' + tag, 'a_plugin' + tag, 'zz_last' + tag, 'MyProducts' + tag, 'with-minus' + tag, 'AProduct_plugins' + tag, 'MyKernels' + tag, 'data.set' + tag]
    names = [str(x) for x in r.permutation(names)][:6]
    if r.random() < .2:
        names = [str(r.choice(['calendar', 'statistics', 'products', 'plugin', 'json', 'utils', 'colorsys', 'parse']))] + names
    return dict(names=names, tag=tag, broken=[BROKEN[int(i)] for i in r.integers(0, len(BROKEN), int(r.choice([0, 0, 1, 2])))],
                junk=[k for k in ('dir', 'hidden', 'text', 'init', 'pyc', 'dash') if r.random() < .15],
                distract=[x for x in DISTRACT if r.random() < .4])


# ------------------------------------------------------------------------------------------------------------- what is expected

def concrete(specs, kind):
    return {s.name: s for s in specs if s.kind == kind and not s.is_abstract}


def matches(sigs, name):
    return any(re.fullmatch(p, name, re.I) is not None for p in sigs)


def expected_products(specs, path):
    """names of the products of the highest priority which accept a file"""
    name = os.path.basename(path)
    cands, refused = {}, 0
    for n, s in concrete(specs, 'AProduct').items():
        if matches(prop(s, 'sigs'), name):
            rej = prop(s, 'reject')
            if rej is not None and re.search(rej, path):
                refused += 1
                continue
            cands[n] = prop(s, 'priority')
    for n, c in BUILTIN['AProduct'].items():
        if matches(c().get_file_signature(), name):
            if c().get_file_type_error(path) is None:
                cands[n] = c.priority
            else:
                refused += 1
    top = max(cands.values()) if cands else None
    return sorted(n for n in cands if cands[n] == top), cands, refused


class Rec(object):
    """the reporting half of a trial inside of the child"""

    def __init__(self):
        self.events, self.fails, self.states = {}, [], []

    def mark(self, e, n=1):
        self.events[e] = self.events.get(e, 0) + n

    def seen(self, *k):
        self.states.append(repr(k))

    def check(self, cond, mech, detail):
        self.mark('oracle_decisions')
        if not cond:
            self.fails.append([mech, detail[:1500]])
        return bool(cond)


def ask(rec, r, specs, files, deep, desc, shape):
    """all the questions to cis; the answers about files are returned"""
    from cis.plugin import find_plugin_classes
    import importlib
    ap = importlib.import_module("cis.data_io.products.AProduct")
    from cis.collocation.col_framework import get_kernel
    from cis.exceptions import ClassNotFoundError
    for kind in PARENTS:
        verbose = bool(r.random() < .5)
        got = find_plugin_classes(parent(kind), PARENTS[kind][1], verbose)
        names = set(c.__name__ for c in got)
        want = set(concrete(specs, kind)) | set(BUILTIN[kind])
        rec.mark('finds')
        rec.seen('find', kind, shape, verbose, len(want) - len(BUILTIN[kind]))
        rec.check(want <= names, 'plugin-not-found', '%s not found (found %s); %s' % (sorted(want - names), sorted(names - set(BUILTIN[kind])), desc))
        rec.check(names <= want, 'not-a-plugin', '%s taken for %s plugins; %s' % (sorted(names - want), kind, desc))
        for n, s in concrete(specs, kind).items():
            c = [x for x in got if x.__name__ == n]
            rec.check(not c or all(getattr(x, 'marker', None) == n for x in c), 'plugin-not-found', 'the class found as %s is not that of the plugin; %s' % (n, desc))
    answers = {}
    for path in files:
        want, cands, refused = expected_products(specs, path)
        rec.mark('selections')
        rec.mark('refused_content', refused)
        rec.mark('ties', len(want) > 1)
        rec.seen('select', len(cands), sorted(cands.values()), refused, shape)
        try:
            got = ap.get_product_full_name([path]).split('/')[1]
        except ClassNotFoundError:
            got = None
        answers[os.path.basename(path)] = got
        if not want:
            rec.mark('no_product')
            rec.check(got is None, 'product-choice', '%r read as %s, though no product accepts it; %s' % (os.path.basename(path), got, desc))
            continue
        rec.mark('selected_plugin' if got in concrete(specs, 'AProduct') else 'selected_builtin')
        if not rec.check(got in want, 'product-choice', '%r read as %s instead of %s among %s; %s' % (os.path.basename(path), got, want, cands, desc)):
            continue
        if deep and got in concrete(specs, 'AProduct') and ',' not in path and os.path.isfile(path) and '\n' not in path and r.random() < .5:
            import cis
            s = concrete(specs, 'AProduct')[got]
            out = cis.read_data(path, 'thing')
            rec.mark('data_read')
            rec.check(out.long_name == got and out.var_name == 'thing', 'product-choice', 'data of %s were read with %s; %s' % (path, out.long_name, desc))
            rec.check(cis.get_variables(path) == set([got]), 'product-choice', 'variables of %s are %s; %s' % (path, cis.get_variables(path), desc))
    # products asked for by name
    pool = sorted(concrete(specs, 'AProduct')) + sorted(BUILTIN['AProduct'])
    for n in [pool[int(i)] for i in r.integers(0, len(pool), 2)]:
        path = files[int(r.integers(len(files)))]
        rec.mark('explicit')
        rec.seen('explicit', n in BUILTIN['AProduct'], shape, os.path.basename(path).split('.')[-1])
        try:
            got = ap.get_product_full_name([path], product=n).split('/')[1]
        except ClassNotFoundError:
            got = None
        rec.check(got == n, 'explicit-product', '%s asked for, %s used; %s' % (n, got, desc))
        if n in concrete(specs, 'AProduct'):
            out = ap.get_data([path], 'v', product=n)
            rec.check(out.long_name == n, 'explicit-product', '%s asked for, %s used to read; %s' % (n, out.long_name, desc))
    bad = ['NoSuchProduct', 'AProduct', 'abstract_Caliop', 'Helper', 'Mixin', 'cis_'] + [s.name for s in specs if s.kind == 'AProduct' and s.is_abstract] \
        + [s.name.swapcase() for s in specs if s.kind == 'AProduct'] + [s.name for s in specs if s.kind == 'Kernel'] + [pool[0][:-1]]
    bad = [b for b in bad if b not in pool]
    n = bad[int(r.integers(len(bad)))]
    rec.mark('explicit_unknown')
    try:
        got = ap.get_product_full_name([files[0]], product=n)
    except ClassNotFoundError:
        got = None
    rec.check(got is None, 'unknown-product', 'product %s, which does not exist, gives %s; %s' % (n, got, desc))
    # kernels by name
    pool = sorted(concrete(specs, 'Kernel')) + sorted(BUILTIN['Kernel'])
    for n in [pool[int(i)] for i in r.integers(0, len(pool), 2)]:
        rec.mark('kernels')
        rec.seen('kernel', n in BUILTIN['Kernel'], shape)
        k = get_kernel(n)
        rec.check(k.__name__ == n, 'kernel-by-name', 'kernel %s gives %s; %s' % (n, k, desc))
    for n in ['NoSuchKernel', 'AbstractDataOnlyKernel', 'Kernel'] + [s.name for s in specs if s.kind == 'Kernel' and s.is_abstract] + [s.name for s in specs if s.kind != 'Kernel']:
        try:
            got = get_kernel(n)
        except ValueError:
            got = None
        rec.check(got is None, 'unknown-kernel', 'kernel %s, which does not exist, gives %s; %s' % (n, got, desc))
    # the plugin kernels applied
    ks = [s for s in concrete(specs, 'Kernel').values() if s.sub_builtin is None or s.sub_builtin.startswith('Abstract')]
    ks = [s for s in ks if s.abstract is None and all(c.sub_builtin is None or c.sub_builtin.startswith('Abstract') for c in chain(s))]
    if deep and ks:
        s = ks[int(r.integers(len(ks)))]
        d = gen.ungridded({'latitude': np.array([.5, .6, 1.5]), 'longitude': np.zeros(3)}, np.array([1., 2., 3.]))
        out = gen.as_list(d.aggregate(how=s.name, latitude=[0, 2, 1], longitude=[-1, 1, 2]))
        v = np.sort(np.ma.asarray(out[0].data).compressed().ravel())
        rec.check(np.array_equal(v, [100., 200.]), 'kernel-by-name', 'aggregating with the kernel %s gives %s; %s' % (s.name, v, desc))
    return answers


DOCUMENTED = [
    ('{x}Agoufou{y}.lev20', 'Aeronet'), ('CAL_LID_L1-ValStage1-V3-01{y}.hdf', 'Caliop_L1'), ('CAL_LID_L2_05kmAPro-Prov-V3-01{y}.hdf', 'Caliop_L2'),
    ('{x}06221_CS_2B-CWC-RVOD_GRANULE_P_R04{y}.hdf', 'CloudSat'), ('{x}MYD06_L2{y}.hdf', 'MODIS_L2'), ('{x}MOD06_L2{y}.hdf', 'MODIS_L2'), ('{x}MYD04_L2{y}.hdf', 'MODIS_L2'),
    ('{x}MOD04_L2{y}.hdf', 'MODIS_L2'), ('{x}MYD08_D3{y}.hdf', 'MODIS_L3'), ('{x}MOD08_D3{y}.hdf', 'MODIS_L3'), ('{x}MOD08_E3{y}.hdf', 'MODIS_L3'),
    ('{x}model{y}.pp', 'HadGEM_PP'), ('{x}points{y}.txt', 'ASCII_Hyperpoints'),
    ('{x}ESACCI-L2P_AEROSOL-ALL-AATSR{y}.nc', 'Aerosol_CCI_L2'), ('{x}ESACCI-L2_CLOUD-ALL{y}.nc', 'Cloud_CCI_L2'), ('{x}ESACCI-L3C_AEROSOL{y}.nc', 'Aerosol_CCI_L3'),
    ('{x}ESACCI-L3C_CLOUD{y}.nc', 'Cloud_CCI_L3'), ('{x}ESACCI-L3U_CLOUD{y}.nc', 'Cloud_CCI_L3'), ('{x}ATL_EBD_2A{y}.h5', 'EarthCARE_MSI_ATL'),
    ('xglnwa.pd200802{y}.nc', 'HadGEM_CONVSH'), ('{x}other{y}.nc', 'NetCDF_Gridded'), ('{x}other{y}.nc', 'NetCDF_Gridded'), ('RF04{y}.nc', 'NetCDF_Gridded'),
    ('{x}other{y}.hdf', None), ('{x}other{y}.unknown', None), ('{x}points{y}.txt.gz', None), ('{x}Agoufou.lev20{y}.bak', None), ('x{x}CAL_LID_L1-V3{y}.hdf', None)]


def documented(rec, r, d, desc):
    """files named and made as the documentation says are read with the product which it says, when there are no plugins for them"""
    import importlib
    import netCDF4
    ap = importlib.import_module("cis.data_io.products.AProduct")
    from cis.exceptions import ClassNotFoundError
    os.makedirs(d)
    for i in r.integers(0, len(DOCUMENTED), 6):
        pattern, want = DOCUMENTED[int(i)]
        name = pattern.format(x=str(r.choice(['', '2010_', 'my.', 'a b-'])), y=str(r.choice(['', '.2009-12-31T23-36-08ZN', '_v1', '.A2010', '-0'])))
        path = os.path.join(d, name)
        content = 'none'
        if name.endswith('.nc'):
            content = str(r.choice(['none', 'none', 'cis', 'raf', 'gassp', 'GASSP', 'other source', 'other convention', 'both', 'numeric']))
            with netCDF4.Dataset(path, 'w') as ds:
                ds.title = 'a title'
                if content in ('cis', 'both'):
                    ds.source = str(r.choice(['CIS1.7.4', 'CIS', 'CIS 2']))
                if content == 'numeric':
                    ds.source = 5
                    ds.Conventions = 1.6
                if content in ('raf', 'both'):
                    ds.setncattr(str(r.choice(['Conventions', 'conventions'])), 'NCAR-RAF/nimbus')
                if content in ('gassp', 'GASSP'):
                    ds.setncattr('GASSP_Version' if content == 'GASSP' else 'gassp_version', '1.0')
                if content == 'other source':
                    ds.source = str(r.choice(['a model', 'not CIS', 'cis']))
                if content == 'other convention':
                    ds.Conventions = str(r.choice(['CF-1.6', 'NCAR-RAF', '']))
            want = {'cis': 'cis', 'both': 'cis', 'raf': 'NCAR_NetCDF_RAF', 'gassp': 'NCAR_NetCDF_RAF', 'GASSP': 'NCAR_NetCDF_RAF'}.get(content, want)
        else:
            open(path, 'w').write('x\n')
        rec.mark('documented_names')
        rec.seen('documented', int(i), content, name)
        try:
            got = ap.get_product_full_name([path]).split('/')[1]
        except ClassNotFoundError:
            got = None
        rec.check(got == want, 'documented-name', '%r (content %s) read as %s instead of %s; %s' % (name, content, got, want, desc))


TWIN = """

class {name}({base}):
    twin = {i}
    {priority}
    def get_file_signature(self):
        return [{sig!r}]

    def get_file_type_error(self, filename):
        return ['no'] if {reject} else None

    def create_data_object(self, filenames, variable):
        out = make(self, variable)
        out.metadata.long_name = 'twin {i}'
        return out

    def create_coords(self, filenames):
        return make(self, 'coords')


class {name}_kernel(AbstractDataOnlyKernel):
    twin = {i}

    def get_value_for_data_only(self, values):
        return {i}.
"""


def twins(rec, r, d, data_dir, tag):
    """products of the same name, in several plugin files (or the same as that of a built-in one), for files of their own"""
    import importlib
    from cis.plugin import find_plugin_classes
    ap = importlib.import_module("cis.data_io.products.AProduct")
    os.makedirs(d)
    n = int(r.integers(2, 4))
    builtin = r.random() < .35
    name = str(r.choice(['Caliop_L2', 'cis', 'NetCDF_Gridded', 'ASCII_Hyperpoints'])) if builtin else 'Twin' + tag
    shared = r.random() < .3          # they all take the same files, and only their content tells
    fresh = [('%s%s' % (x, tag)) for x in r.permutation(['first', 'second', 'other', 'zz'])]
    for i in range(n):
        sig, reject = (r'.*twinned%s' % tag, "'-%d.' not in filename" % i) if shared else (r'.*twinned%s_%d' % (tag, i), 'False')
        base = name + 'Base' if builtin and r.random() < .5 else 'AProduct'
        src = HEAD.format(more='from cis.data_io.products import %s as %sBase' % (name, name) if builtin else '')
        src += TWIN.format(name=name, base=base, i=i, sig=sig, reject=reject, priority='priority = %d' % int(r.choice([10, 20, 50, 150])) if r.random() < .7 else '')
        with open(os.path.join(d, fresh[i] + '.py'), 'w') as f:
            f.write(src)
    os.environ['CIS_PLUGIN_HOME'] = d
    desc = '%d products called %s %s' % (n, name, 'for the same name of file' if shared else '')
    for kind, nm in (('AProduct', name), ('Kernel', name + '_kernel')):
        got = set(getattr(c, 'twin', None) for c in find_plugin_classes(parent(kind), PARENTS[kind][1], False) if c.__name__ == nm)
        rec.check(set(range(n)) <= got, 'plugin-not-found', 'of %s (%s) only %s are found' % (desc, nm, sorted(got, key=str)))
    for i in r.permutation(n):
        path = os.path.join(data_dir, 'a-%d.twinned%s%s' % (i, tag, '' if shared else '_%d' % i))
        open(path, 'w').write('x')
        rec.mark('same_class_name')
        rec.seen('twins', builtin, shared, n)
        got = ap.get_data([path], 'v').long_name
        rec.check(got == 'twin %d' % i, 'product-choice', 'the file for number %d of %s is read with %s' % (i, desc, got))


def parse_questions(rec, r, specs, path, desc):
    """the parser accepts the plugins found and refuses the others"""
    import logging
    import io
    from cis.parse import parse_args
    if not logging.getLogger().handlers:
        logging.getLogger().addHandler(logging.NullHandler())
    pool = sorted(concrete(specs, 'AProduct')) + sorted(BUILTIN['AProduct'])
    bad = ['NoSuchProduct', 'Helper', 'AProduct'] + [s.name for s in specs if s.kind == 'AProduct' and s.is_abstract]
    kpool = sorted(concrete(specs, 'Kernel')) + ['mean']
    kbad = ['NoSuchKernel', 'AbstractDataOnlyKernel'] + [s.name for s in specs if s.kind == 'Kernel' and s.is_abstract]
    for n, ok, args in ([(n, True, ['subset', 'v:%s:product=%s' % (path, n), 'x=[1,2]']) for n in [pool[int(r.integers(len(pool)))]]] +
                        [(n, False, ['subset', 'v:%s:product=%s' % (path, n), 'x=[1,2]']) for n in [bad[int(r.integers(len(bad)))]]] +
                        [(n, True, ['aggregate', 'v:%s:kernel=%s' % (path, n), 'x=[1,2,1]']) for n in [kpool[int(r.integers(len(kpool)))]]] +
                        [(n, False, ['aggregate', 'v:%s:kernel=%s' % (path, n), 'x=[1,2,1]']) for n in [kbad[int(r.integers(len(kbad)))]]]):
        rec.mark('parsed')
        old = sys.stderr
        sys.stderr = io.StringIO()
        try:
            try:
                ns = parse_args(args)
                got = True
            except SystemExit as e:
                got = e.code in (0, None)
        finally:
            sys.stderr = old
        rec.check(got == ok, 'parsed-plugin', '%s %s by the parser; %s' % (n, 'accepted' if got else 'refused', desc))
        if got and ok:
            key = 'product' if 'product=' in args[1] else 'kernel'
            rec.check(ns.datagroups[0][key] == n, 'parsed-plugin', '%s became %s; %s' % (n, ns.datagroups[0][key], desc))


def in_child(t, fn, tag):
    """run fn(rec) in a forked child and report what it recorded; its return value"""
    out = t.path('result-%s.json' % tag)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            rec = Rec()
            err, val = None, None
            try:
                val = fn(rec)
            except BaseException:
                tb = sys.exc_info()[2]
                frames = traceback.extract_tb(tb)
                in_cis = any('/cis/' in f.filename and '/verif/' not in f.filename for f in frames) and not isinstance(sys.exc_info()[1], KeyboardInterrupt)
                err = ['cis' if in_cis else 'harness', traceback.format_exc()[-1800:]]
            with open(out, 'w') as f:
                json.dump(dict(events=rec.events, fails=rec.fails, states=rec.states, err=err, val=val), f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise RuntimeError('child ended with %s' % st)
    res = json.load(open(out))
    for e, n in res['events'].items():
        t.mark(e, n)
    for s in res['states']:
        t.seen(s)
    for mech, detail in res['fails']:
        t.fail(mech, detail)
    if res['err']:
        if res['err'][0] == 'cis':
            t.fail('unexpected-exception', res['err'][1] + '\n' + str(t.desc))
            return None
        raise RuntimeError(res['err'][1])
    return res['val']


def case(t):
    r = t.rng
    tag = '_%d' % t.index
    specs = make_specs(r, tag)
    ex = extras(r, tag)
    d1 = t.path('plugins' + tag)
    order = [int(x) for x in r.integers(0, 2 ** 31, 3)]
    files = write_dir(r, d1, specs, order[0], t, ex)
    shape = (len(files), len(specs), len(ex['broken']), tuple(ex['junk']), sum(s.is_abstract for s in specs), ex['names'][0] if '_' not in ex['names'][0] else '')
    desc = 'plugins %s files %s broken %s junk %s' % ([(s.name, s.kind, s.base and s.base.name, s.sub_builtin, prop(s, 'priority') if s.kind == 'AProduct' else '',
                                                       prop(s, 'sigs') if s.kind == 'AProduct' else '', prop(s, 'reject') if s.kind == 'AProduct' else '',
                                                       'abstract' if s.is_abstract else '') for s in specs], files, [b[:20] for b in ex['broken']], ex['junk'])
    t.describe(desc)
    t.mark('several_files', len(files) + len(ex['broken']) > 1)
    t.mark('broken_files', len(ex['broken']))
    t.mark('abstract_classes', sum(s.is_abstract for s in specs))
    t.mark('colliding_name', any('_' not in f for f in files))
    data_dir = t.path('data')
    os.makedirs(data_dir)
    paths = []
    for i in range(int(r.integers(2, 6))):
        p = os.path.join(data_dir, file_name(r))
        if p.lower().endswith('.nc') or r.random() < .15:
            p = p if p.lower().endswith('.nc') else os.path.splitext(p.strip())[0] + '.nc'
            gen.ungridded({'latitude': np.arange(3.), 'longitude': np.arange(3.)}, np.arange(3.)).save_data(p)
            if r.random() < .5:
                import netCDF4
                with netCDF4.Dataset(p, 'a') as ds:
                    ds.delncattr('source')
        else:
            open(p, 'w').write('some text\n')
        paths.append(p)
    deep = True
    seeds = [int(x) for x in r.integers(0, 2 ** 31, 4)]

    def first(rec):
        rr = np.random.default_rng(seeds[0])
        os.environ['CIS_PLUGIN_HOME'] = d1
        a = ask(rec, rr, specs, paths, deep, desc, shape)
        if rr.random() < .3:
            parse_questions(rec, rr, specs, paths[0], desc)
        if rr.random() < .3:
            more = make_specs(rr, tag + 'x')
            write_dir(rr, d1, more, seeds[1], t, dict(ex, names=['later_file' + tag, 'another_later' + tag], broken=[], junk=[], distract=[], tag=tag + 'x'))
            rec.mark('added_later')
            import importlib
            importlib.invalidate_caches()
            ask(rec, rr, specs + more, paths, False, desc + ' and then added ' + str([s.name for s in more]), ('later',) + shape)
        elif rr.random() < .3:
            # the directory is changed to another one, with files of the same names
            more = make_specs(rr, tag + 'y')
            d2 = t.path('other' + tag)
            write_dir(rr, d2, more, seeds[1], t, dict(ex, broken=[], junk=[], distract=[], names=files + ['q' + tag]))
            os.environ['CIS_PLUGIN_HOME'] = d2
            rec.mark('second_directory')
            from cis.plugin import find_plugin_classes
            for kind in PARENTS:
                names = set(c.__name__ for c in find_plugin_classes(parent(kind), PARENTS[kind][1], False))
                rec.check(set(concrete(more, kind)) <= names, 'plugin-not-found', '%s of a second directory not found; %s' % (sorted(set(concrete(more, kind)) - names), desc))
        return a
    a = in_child(t, first, 'a')
    if a is None or t.failures:
        return
    # the same classes spread over other files, and found in another order
    d3 = t.path('spread' + tag)
    ex3 = dict(ex, names=list(ex['names'])[::-1])
    write_dir(r, d3, specs, order[1], t, ex3)

    def second(rec):
        rr = np.random.default_rng(seeds[2])
        os.environ['CIS_PLUGIN_HOME'] = d3
        if rr.random() < .5:
            real = os.listdir
            os.listdir = lambda p='.': sorted(real(p), reverse=True) if str(p) == d3 else real(p)
        return ask(rec, rr, specs, paths, False, desc + ' (spread otherwise)', shape)
    b = in_child(t, second, 'b')
    t.mark('shuffled')
    if b is not None:
        for p in a:
            t.check(a[p] == b[p], 'product-order', '%r is read as %s or %s depending on the files which the products are in; %s' % (p, a[p], b[p], desc))
    if t.rng.random() < .25:
        in_child(t, lambda rec: twins(rec, np.random.default_rng(seeds[1] + 5), t.path('twins' + tag), data_dir, tag), 'd')
    if t.rng.random() < .3:
        def none(rec):
            os.environ['CIS_PLUGIN_HOME'] = str(np.random.default_rng(seeds[3]).choice([t.path('no-such-directory'), t.path('empty')]))
            if os.environ['CIS_PLUGIN_HOME'].endswith('empty'):
                os.makedirs(os.environ['CIS_PLUGIN_HOME'])
            ask(rec, np.random.default_rng(seeds[3]), [], paths, False, 'no plugins in ' + os.environ['CIS_PLUGIN_HOME'], ())
            documented(rec, np.random.default_rng(seeds[3] + 1), t.path('documented'), 'no plugins')
        in_child(t, none, 'c')
