"""C23: write requests as command lines and look at the namespace the parser makes of them; break command lines and look for their refusal."""
import datetime as dt
import logging
import os
import re
import numpy as np

CASES = {'quick': 9000, 'thorough': 150000}
CASE_LIMIT = 60
RULE = 'one observation per distinct (command, options given, kinds of values and names used, order) or (command, kind of mistake)'
REQUIRED = {'requests': 4000, 'variables': 4000, 'files': 4000, 'options': 3500, 'numbers': 2500, 'dates': 700, 'method_arguments': 1200, 'refused': 2500, 'nested_brackets': 250, 'escaped_colons': 700, 'equals_in_value': 200,
            'verbosity': 800}
ASSUMPTIONS = ['Python float() is trusted to read numbers', 'the shell has already removed quotes',
               'names with a closing bracket are file patterns, and variables for eval contain no equals sign (as documented)',
               'the last instant of an incomplete date is its last whole second', 'a grid given without a step is refused by the command line although the manual mentions it']

FILES = ['plain.nc', 'with space.nc', 'co:lon.nc', 'eq=ual.nc', 'par(en.nc', 'p(a)r.nc', 'dash-1.2_x.nc', 'hash#+.nc', u'\u00fcml\u00e4ut.nc', 'sub/inner.nc', 'UPPER.HDF', 'noext', 'a~b.txt', 'br[open.nc']
D = {}


def preload():
    import cis.parse
    import cis.plugin
    import cis.data_io.products


def setup_worker(wdir):
    d = os.path.join(wdir, 'files')
    os.makedirs(os.path.join(d, 'sub'))
    os.makedirs(os.path.join(d, 'dir only'))
    for n in FILES + ['dir only/one.nc', 'dir only/two.nc', 'w1.nc', 'w2.nc']:
        with open(os.path.join(d, n), 'w') as f:
            f.write('x')
    D['d'] = d
    os.chdir(d)
    import cis.plugin as plugin
    from cis.data_io.products.AProduct import AProduct
    from cis.collocation.col_framework import Kernel
    D['products'] = sorted({c.__name__ for c in plugin.find_plugin_classes(AProduct, 'cis.data_io.products', verbose=False)})
    D['kernels'] = ['mean', 'max', 'min', 'moments', 'sum', 'stddev']
    from cis.plotting.plot import plot_types, projections
    D['types'] = ['line', 'scatter', 'scatter2d', 'heatmap', 'contour', 'contourf', 'histogram', 'histogram2d', 'comparativescatter', 'taylor']
    D['projections'] = sorted(projections)
    import contextlib
    import io
    D['io'], D['ctx'] = io, contextlib


def pick(r, seq):
    return seq[int(r.integers(0, len(seq)))]


def parse(argv):
    """(namespace, None) or (None, how it was refused)"""
    from cis.parse import parse_args
    root = logging.getLogger()
    h = logging.NullHandler()
    h.setLevel(logging.WARNING)
    old = list(root.handlers)
    root.handlers[:] = [h]
    err, out = D['io'].StringIO(), D['io'].StringIO()
    try:
        with D['ctx'].redirect_stderr(err), D['ctx'].redirect_stdout(out):
            ns = parse_args(list(argv))
        return ns, None, h.level, err.getvalue()
    except SystemExit as e:
        return None, ('exit', e.code), h.level, err.getvalue()
    except Exception as e:
        return None, ('exception', e), h.level, repr(e) + err.getvalue()
    finally:
        root.handlers[:] = old


class W(object):
    """A writer of one command line"""

    def __init__(self, t):
        self.t, self.r = t, t.rng
        self.kinds = set()

    def esc(self, s):
        if ':' in s:
            self.t.mark('escaped_colons')
            self.kinds.add('colon')
        return s.replace(':', '\\:')

    def ident(self):
        return pick(self.r, 'abcdefgxyzABQ') + ''.join(pick(self.r, 'abcdefgxyz0123456789_') for _ in range(int(self.r.integers(0, 8))))

    def variable(self, plain=False):
        r = self.r
        k = int(r.integers(0, 9)) if not plain else 0
        v = self.ident()
        if k == 1:
            v = pick(r, ['*', 'Cloud_*', 'var?', 'v_[0-9]', 'a[!b]c*'])
        elif k == 2:
            v = 'group/' + v
        elif k == 3:
            v = 'TOTAL RATE: ' + v + ' KG/M2'
        elif k == 4:
            v = '550-870' + v
        elif k == 5:
            v = v + ' (mean)'
        elif k == 6:
            v = v + '.' + self.ident() + '+'
        elif k == 7:
            v = str(int(r.integers(0, 99999)))
        self.kinds.add('v%d' % k)
        self.t.mark('variables')
        return v

    def variables(self, n=None, plain=False):
        n = n or int(self.r.choice([1, 1, 1, 2, 3, 5]))
        out = []
        while len(out) < n:
            v = self.variable(plain)
            if v not in out:
                out.append(v)
        return out

    def files(self, n=None):
        """(text, expected list)"""
        r = self.r
        n = n or int(r.choice([1, 1, 1, 2, 3]))
        txt, exp = [], []
        for i in range(n):
            k = int(r.integers(0, 8))
            if k == 0:
                f, e = 'w?.nc', ['w1.nc', 'w2.nc']
            elif k == 1:
                f, e = 'w[12].nc', ['w1.nc', 'w2.nc']
            elif k == 2:
                f, e = 'dir only', ['dir only/one.nc', 'dir only/two.nc']
            elif k == 3:
                f = os.path.join(D['d'], pick(r, FILES[:3]))
                e = [f]
            else:
                f = pick(r, FILES)
                e = [f]
            txt.append(f)
            exp += [x for x in e if x not in exp]
            self.kinds.add('f%d' % min(k, 4))
        self.t.mark('files', len(exp))
        return self.esc(','.join(txt)), exp

    def nested(self, depth):
        """Brackets within brackets, with separators everywhere"""
        r = self.r
        if depth == 0:
            return ''.join(pick(r, ['a', 'b1', '', 'c,d', 'g h']) for _ in range(2))
        o, c = pick(r, ['[]', '()'])
        return pick(r, ['', 'x', 'y ']) + o + ','.join(self.nested(depth - 1 if r.random() < .7 else 0) for _ in range(int(r.integers(1, 4)))) + c + pick(r, ['', 'z', 'w'])

    def text(self):
        """A value of free text"""
        r = self.r
        k = int(r.integers(0, 9))
        s = self.ident()
        if k == 1:
            s = s + ' and ' + self.ident()
        elif k == 2:
            s = s + pick(r, [' (a, b)', '(x,y)', ' [kg, m]', '(a=1, b=2)', '[(p,q),r]', self.nested(int(r.integers(1, 5)))])
            self.t.mark('nested_brackets')
        elif k == 3:
            s = s + pick(r, ['=', ' = ', '=b=']) + self.ident()
            self.t.mark('equals_in_value')
        elif k == 4:
            s = '$\\mu$ ' + s
        elif k == 5:
            s = s + ': ' + self.ident()
        elif k == 6:
            s = pick(r, ['-', '+', '%', '#', u'\u00b5', '*', '.', '/']) + s
        elif k == 7:
            s = str(int(r.integers(-50, 50)))
        self.kinds.add('t%d' % k)
        return s

    def number(self, lo=-1000., hi=1000.):
        """(text, value)"""
        r = self.r
        v = float(r.uniform(lo, hi))
        k = int(r.integers(0, 6))
        s = [repr(v), '%d' % v, '%.2f' % v, '%.3e' % v, '%+.1f' % v, ('%.1f' % v).replace('.0', '.')][k]
        self.t.mark('numbers')
        self.kinds.add('n%d' % k)
        return s, float(s)

    def date(self):
        """(text, first instant, last instant, fields)"""
        r = self.r
        n = int(r.integers(1, 7))
        f = [int(r.integers(1900, 2100)), int(r.integers(1, 13)), int(r.integers(1, 29)), int(r.integers(0, 24)), int(r.integers(0, 60)), int(r.integers(0, 60))][:n]
        s = '%04d' % f[0]
        z = r.random() < .85
        for i, v in enumerate(f[1:], 1):
            s += ('-' if i < 3 else [pick(r, 'T: ')][0] if i == 3 else ':') + (('%02d' if z else '%d') % v)
        first = dt.datetime(*(f + [1, 1, 0, 0, 0][n - 1:]))
        if n == 1:
            nxt = dt.datetime(f[0] + 1, 1, 1)
        elif n == 2:
            nxt = dt.datetime(f[0] + f[1] // 12, f[1] % 12 + 1, 1)
        else:
            nxt = first + [None, None, None, dt.timedelta(days=1), dt.timedelta(hours=1), dt.timedelta(minutes=1), dt.timedelta(seconds=1)][n]
        self.t.mark('dates')
        self.kinds.add('d%d' % n)
        return s, first, nxt - dt.timedelta(seconds=1), f

    def duration(self):
        r = self.r
        y, mo, d, h, mi, s = [int(r.integers(0, 20)) if r.random() < .4 else None for _ in range(6)]
        if all(v is None for v in (y, mo, d, h, mi, s)):
            d = 3
        date = ''.join('%d%s' % (v, c) for v, c in ((y, 'Y'), (mo, 'M'), (d, 'D')) if v is not None)
        time = ''.join('%d%s' % (v, c) for v, c in ((h, 'H'), (mi, 'M'), (s, 'S')) if v is not None)
        txt = 'P' + date + ('T' + time if time else '')
        td = dt.timedelta(days=(d or 0) + 30 * (mo or 0) + 365 * (y or 0), hours=h or 0, minutes=mi or 0, seconds=s or 0)
        self.kinds.add('dur')
        return txt if r.random() < .8 else txt.lower().replace('t', 'T'), td

    def method(self, names, args):
        """name[arg=value,...] -> text, expected pair"""
        r = self.r
        name = pick(r, names)
        chosen = [args[i] for i in r.permutation(len(args))[:int(r.integers(0, len(args) + 1))]]
        exp = {}
        parts = []
        for a in chosen:
            v = None
            if a in ('h_sep', 'a_sep'):
                v = '%s%s' % (self.number(0, 5000)[0], pick(r, ['', 'km', 'm']))
            elif a == 'p_sep':
                v = self.number(1, 5)[0]
            elif a == 't_sep':
                v = self.duration()[0]
            elif a == 'fill_value':
                v = self.number()[0]
            elif a in ('missing_data_for_missing_sample', 'extrapolate'):
                v = pick(r, ['True', 'False', None])
            else:
                v = self.text()
            if v is None:
                parts.append(a)
                exp[a] = True
            else:
                parts.append('%s=%s' % (a, self.esc(v)))
                exp[a] = v
            self.t.mark('method_arguments')
        txt = name
        if parts or r.random() < .15:
            txt += '[' + ','.join(parts) + ']'
        self.kinds.add('args%d' % min(len(parts), 3))
        return txt, (name, exp)

    def options(self, opts, bare=None):
        """opts: name -> (text, expected); returns text (with leading colon) and the expected ones, in any order"""
        r = self.r
        names = [n for n in opts if r.random() < .45]
        names = [names[i] for i in r.permutation(len(names))]
        if not names:
            return '', {}
        self.t.mark('options', len(names))
        if bare and names == [bare] and len(opts) == 1 and r.random() < .5:
            self.kinds.add('bare')
            return ':' + self.esc(opts[bare][0]), {bare: opts[bare][1]}
        self.kinds.add('o%d' % min(len(names), 4))
        return ':' + ','.join('%s=%s' % (n, opts[n][0]) for n in names), {n: opts[n][1] for n in names}


def basic(w, product=True, n=None, plain=False):
    vs = w.variables(n, plain)
    ft, fe = w.files()
    ot, oe = w.options({'product': (pick(w.r, D['products']),) * 2}, 'product')
    vt = ','.join(vs)
    if w.r.random() < .1:       # blanks are removed from the list
        vt = pick(w.r, [',', '', ',,', ',,,']) + pick(w.r, [',', ',,', ',,,', ',,,,']).join(vs) + pick(w.r, ['', ',', ',,'])
        w.kinds.add('blanks')
    return w.esc(vt) + ':' + ft + ot, dict(variables=vs, filenames=fe, product=oe.get('product'))


def plotgroup(w):
    r = w.r
    v = w.variable()
    ft, fe = w.files()
    num = lambda lo=-100., hi=100.: w.number(lo, hi)
    lv = [w.number() for _ in range(int(r.integers(1, 5)))]
    ni, wi = int(r.integers(1, 40)), int(r.integers(1, 5))
    from matplotlib.colors import cnames
    c = [pick(r, sorted(cnames) + ['grey']) for _ in range(2)]
    tx = [w.text() for _ in range(4)]
    opts = dict(color=(c[0] if r.random() < .8 else c[0].upper(), c[0]), edgecolor=(c[1], c[1]), itemstyle=(pick(r, ['o', 'x', '^', 's']),) * 2, itemwidth=num(0, 50),
                label=(w.esc(tx[0]), tx[0]), product=(pick(r, D['products']),) * 2, type=(pick(r, D['types']),) * 2, alpha=num(0, 1), cmap=(pick(r, ['RdBu', 'jet', 'viridis']),) * 2, vmin=num(), vmax=num(),
                vstep=num(0, 9), contnlevels=(str(ni), ni), contlevels=('[' + ','.join(x[0] for x in lv) + ']', [x[1] for x in lv]), contlabel=pick(r, [('true', True), ('True', True), ('false', False), ('FALSE', False)]),
                contwidth=(str(wi), wi), cbarscale=num(0, 1), cbarorient=(pick(r, ['horizontal', 'vertical']),) * 2, colourbar=pick(r, [('true', True), ('False', False)]), cbarlabel=(w.esc(tx[1]), tx[1]))
    keep = [k for k in opts if r.random() < .5]
    ot, oe = w.options({k: opts[k] for k in keep} if keep else {'color': opts['color']})
    return w.esc(v) + ':' + ft + ot, dict(variables=v, filenames=fe, **{k: oe.get(k) for k in opts})


def samplegroup(w):
    ft, fe = w.files()
    sv = w.variable()
    while ',' in sv:
        sv = w.variable()
    gen = ['fill_value', 'var_name', 'var_long_name', 'var_units', 'missing_data_for_missing_sample']
    col = w.method(['box', 'bin', 'lin', 'nn', 'dummy', 'MyCollocator'], ['h_sep', 'a_sep', 'p_sep', 't_sep', 'extrapolate'] + gen)
    ker = w.method(['mean', 'moments', 'nn_t', 'nn_h', 'nn_horizontal', 'max', 'MyKernel'], ['some_arg', 'other'])
    ot, oe = w.options(dict(variable=(w.esc(sv), sv), collocator=col, kernel=ker, product=(pick(w.r, D['products']),) * 2))
    return ft + ot, dict(filenames=fe, **{k: oe.get(k) for k in ('variable', 'collocator', 'kernel', 'product')})


def limits(w):
    r = w.r
    dims = [['x', 'y', 'z', 't', 'p', 'X', 'time', 'latitude', 'longitude', 'altitude', 'air_pressure', 'T', 'shape_factor', 'model level', 'julian_date', 'lev-1'][i] for i in r.permutation(16)[:int(r.integers(1, 5))]]
    parts, exp = [], {}
    if len({d.lower() for d in dims}) < len(dims):
        dims = dims[:1]
    for d in dims:
        if d.lower() in ('t', 'time') or d == 'julian_date':
            a = w.date()
            if d != 'julian_date' and r.random() < .4:
                parts.append('%s=[%s]' % (d, a[0]))
                exp[d] = ('partial', a[3])
                continue
            b = w.date()
            if d == 'julian_date' and (len(a[3]) == 1 or len(b[3]) == 1):
                na, nb = w.number(), w.number()
                parts.append('%s=[%s,%s]' % (d, na[0], nb[0]))
                exp[d] = [na[1], nb[1]]
                continue
            if r.random() < .1:
                parts.append('%s=[None,%s]' % (d, b[0]))
                exp[d] = [None, b[2]]
            else:
                parts.append('%s=[%s,%s]' % (d, a[0], b[0]))
                exp[d] = [a[1], b[2]]
        else:
            lon = d in ('x', 'X', 'longitude')
            a = w.number(-180, 180) if lon else w.number()
            if r.random() < .15:
                parts.append('%s=[%s]' % (d, a[0]))
                exp[d] = [a[1], a[1]]
                continue
            b = w.number(a[1], a[1] + 180) if lon else w.number(a[1], a[1] + 1000)
            if b[1] < a[1]:
                b = a
            if not lon and r.random() < .07:
                parts.append('%s=[None,%s]' % (d, b[0]))
                exp[d] = [None, b[1]]
            else:
                parts.append('%s=[%s,%s]' % (d, a[0], b[0]))
                exp[d] = [a[1], b[1]]
    if r.random() < .25:
        s = pick(r, ['POLYGON((-10 50, 0 60, 10 50, 0 40, -10 50))', 'POLYGON ((30 10, 40 40, 20 40, 10 20, 30 10), (20 30, 35 35, 30 20, 20 30))', 'MULTIPOLYGON(((30 20, 45 40, 10 40, 30 20)),((15 5, 40 10, 10 20, 5 10, 15 5)))',
                     'LINESTRING(0 0, 1 1)'])
        parts.append('shape=' + s)
        exp['shape'] = s
        w.t.mark('nested_brackets')
        w.kinds.add('shape')
    order = r.permutation(len(parts))
    return ','.join(parts[i] for i in order), exp


def grid(w):
    r = w.r
    dims = [['x', 'y', 'z', 't', 'p', 'latitude', 'longitude', 'time', 'altitude', 'model level'][i] for i in r.permutation(10)[:int(r.integers(1, 5))]]
    parts, exp = [], {}
    for d in dims:
        if r.random() < .3:
            parts.append(d)
            exp[d] = None
        elif d in ('t', 'time'):
            a, b, (ds, td) = w.date(), w.date(), w.duration()
            if r.random() < .2:
                n = w.number(0.01, 9)
                ds, td = n
            parts.append('%s=[%s,%s,%s]' % (d, a[0], b[0], ds))
            exp[d] = slice(a[1], b[2], td)
        else:
            lon = d in ('x', 'longitude')
            a = w.number(-180, 180) if lon else w.number()
            b = w.number(a[1], a[1] + (180 if lon else 500))
            if b[1] < a[1]:
                b = a
            c = w.number(0.5, 40)
            parts.append('%s=[%s,%s,%s]' % (d, a[0], b[0], c[0]))
            exp[d] = slice(a[1], b[1], c[1])
    order = r.permutation(len(parts))
    return ','.join(parts[i] for i in order), exp


def request(w):
    """argv without options for the output, expected attributes, command"""
    r = w.r
    c = pick(r, ['plot', 'info', 'col', 'aggregate', 'collapse', 'subset', 'eval', 'stats'])
    e = {}
    opts = []
    if c == 'plot':
        gs = [plotgroup(w) for _ in range(int(r.choice([1, 1, 2, 3])))]
        pos = [g[0] for g in gs]
        e['datagroups'] = [g[1] for g in gs]
        for o, kind in (('xlabel', 't'), ('ylabel', 't'), ('cbarlabel', 't'), ('title', 't'), ('type', 'ty'), ('fontsize', 'n'), ('cmap', 'cm'), ('height', 'n'), ('width', 'n'), ('xmin', 'nd'), ('xmax', 'nd'),
                        ('xstep', 'ns'), ('ymin', 'nd'), ('ymax', 'nd'), ('ystep', 'ns'), ('vmin', 'n'), ('vmax', 'n'), ('vstep', 'n'), ('xbins', 'i'), ('ybins', 'i'), ('cbarorient', 'or'),
                        ('logx', 'f'), ('logy', 'f'), ('logv', 'f'), ('grid', 'f'), ('xaxis', 't'), ('yaxis', 't'), ('coastlinescolour', 'co'), ('nasabluemarble', 'f'), ('cbarscale', 'n'), ('projection', 'pr'),
                        ('solid', 'f'), ('extend', 'n'), ('fold', 'f'), ('gammamax', 'n'), ('stdbiasmax', 'n'), ('bias', 'bi'), ('nocolourbar', 'F')):
            if r.random() > .12:
                continue
            if kind in 'fF':
                opts.append(['--' + o])
                e['colourbar' if kind == 'F' else o] = kind == 'f'
                continue
            if kind == 't':
                s = v = w.text()
            elif kind == 'n':
                s, v = w.number()
            elif kind == 'i':
                s = str(int(r.integers(1, 99)))
                v = int(s)
            elif kind == 'nd':
                if r.random() < .4:
                    d = w.date()
                    if len(d[3]) == 1:
                        continue
                    s, v = d[0], d[1]
                else:
                    s, v = w.number()
            elif kind == 'ns':
                s, v = w.duration() if r.random() < .4 else w.number(0, 50)
            else:
                s = v = pick(r, {'ty': D['types'], 'cm': ['RdBu', 'jet'], 'or': ['vertical', 'horizontal'], 'co': ['red', 'grey', 'white'], 'pr': D['projections'], 'bi': ['color', 'colour', 'size', 'flag']}[kind])
            opts.append(['--%s=%s' % (o, s)] if s[:1] == '-' or r.random() < .5 else ['--' + o, s])
            e[o] = v
    elif c == 'info':
        if r.random() < .5:
            ft, fe = w.files()
            pos = [ft]
            e['datagroups'] = [dict(filenames=fe)]
        else:
            g = basic(w)
            pos = [g[0]]
            e['datagroups'] = [g[1]]
        if r.random() < .3:
            v = pick(r, ['VD', 'SD', 'All'])
            opts.append(['--type', v])
            e['type'] = v
    elif c == 'col':
        gs = [basic(w) for _ in range(int(r.choice([1, 1, 2, 3])))]
        s = samplegroup(w)
        pos = [g[0] for g in gs] + [s[0]]
        e.update(datagroups=[g[1] for g in gs], samplegroup=s[1], samplefiles=s[1]['filenames'], samplevariable=s[1]['variable'], sampleproduct=s[1]['product'])
    elif c in ('aggregate', 'collapse'):
        vs = w.variables()
        ft, fe = w.files()
        ot, oe = w.options(dict(product=(pick(r, D['products']),) * 2, kernel=(pick(r, D['kernels']),) * 2))
        pos = [w.esc(','.join(vs)) + ':' + ft + ot]
        e['datagroups'] = [dict(variables=vs, filenames=fe, product=oe.get('product'), kernel=oe.get('kernel'))]
        if c == 'aggregate':
            s, g = grid(w)
            pos.append(s)
            e['grid'] = g
        else:
            dims = [['x', 'y', 't', 'latitude', 'model level', 'time'][i] for i in r.permutation(6)[:int(r.integers(1, 4))]]
            pos += [','.join(dims)] if r.random() < .5 else dims
            e['dimensions'] = dims
    elif c == 'subset':
        g = basic(w)
        s, l = limits(w)
        pos = [g[0], s]
        e['datagroups'] = [g[1]]
        e['limits'] = l
    elif c == 'eval':
        gs, used = [], set()
        for _ in range(int(r.choice([1, 1, 2, 3]))):
            vs = [v for v in w.variables(None, False) if '=' not in v]
            names, al, txt = [], [], []
            for v in vs:
                a = w.ident() if r.random() < .5 else v
                if a in used or not a:
                    continue
                used.add(a)
                names.append(v)
                al.append(a)
                txt.append(v if a == v else v + '=' + a)
            if not names:
                a = 'q%d' % len(used)
                used.add(a)
                names, al, txt = [a], [a], [a]
            ft, fe = w.files()
            ot, oe = w.options({'product': (pick(r, D['products']),) * 2}, 'product')
            gs.append((w.esc(','.join(txt)) + ':' + ft + ot, dict(variables=names, aliases=al, filenames=fe, product=oe.get('product'))))
        ex = pick(r, ['a + b', 'a*(b-1)/2', 'numpy.mean(a) * b', 'numpy.where(a>0,a,b)', '(a+b)**2', 'a[0]:b', 'max(a, b)', '2 - a'])
        un = pick(r, ['1', 'kg m^-3', 'm s-1', '', 'hPa (100 Pa)', 'days since 1970-01-01 00:00'])
        pos = [g[0] for g in gs] + [ex, un]
        e.update(datagroups=[g[1] for g in gs], expr=ex, units=un)
        if r.random() < .4:
            at = {w.ident() + str(i): pick(r, ['x', 'convective rate', '6.1.00', 'a:b', '(c)', '-1']) for i in range(int(r.integers(1, 4)))}
            opts.append([pick(r, ['--attributes', '-a']), ','.join('%s=%s' % kv for kv in at.items())])
            e['attributes'] = at
    else:
        if r.random() < .5:
            gs = [basic(w, n=2)]
        else:
            gs = [basic(w, n=1), basic(w, n=1)]
        pos = [g[0] for g in gs]
        e['datagroups'] = [g[1] for g in gs]
    return c, pos, opts, e


def assemble(w, c, pos, opts, e):
    r = w.r
    pre = []
    glob = []
    k = int(r.integers(0, 8))
    v = {1: ['-v'], 2: ['--verbose'], 3: ['-vv'], 4: ['-q'], 5: ['--quiet'], 6: ['-v', '-v'], 7: ['-' + 'v' * int(r.integers(3, 6))]}.get(k, [])
    if v:
        w.t.mark('verbosity')
    e['_level'] = {1: logging.INFO, 2: logging.INFO, 3: logging.DEBUG, 4: logging.ERROR, 5: logging.ERROR, 6: logging.DEBUG, 7: logging.DEBUG}.get(k, logging.WARNING)
    e['force_overwrite'] = bool(r.random() < .3)
    fo = ['--force-overwrite'] if e['force_overwrite'] else []
    (pre if r.random() < .5 else glob).extend(v)
    (pre if r.random() < .5 else glob).extend(fo)
    if c != 'info' and r.random() < .5:
        n = pick(r, ['res', 'res.nc', 'sub/res', 'a b', os.path.join(D['d'], 'x.nc')])
        ext = '.png' if c == 'plot' else '.nc'
        if c == 'plot':
            n = n.replace('.nc', '.pdf')
        e['output'] = n if os.path.splitext(n)[1] else n + ext
        if c == 'eval' and r.random() < .5:
            e['output_var'] = w.ident()
            n = e['output_var'] + ':' + n
        opts.append(['-o', n] if r.random() < .6 else ['--output=' + n] if r.random() < .5 else ['--output', n])
    elif c not in ('info', 'plot', 'stats'):
        e['output'] = 'out.nc'
    order = r.permutation(len(opts))
    opts = [opts[i] for i in order] + [[g] for g in glob]
    cut = int(r.integers(0, len(opts) + 1))
    before, after = sum(opts[:cut], []), sum(opts[cut:], [])
    name = {'col': pick(r, ['col', 'collocate']), 'aggregate': pick(r, ['aggregate', 'agg']), 'subset': pick(r, ['subset', 'sub'])}.get(c, c)
    e['command'] = {'col': 'collocate'}.get(c, c)
    return pre + [name] + before + pos + after


def same(got, exp):
    from cis.time_util import PartialDateTime
    if isinstance(exp, tuple) and len(exp) == 2 and exp[0] == 'partial':
        if not isinstance(got, PartialDateTime):
            return False
        f = [getattr(got, a) for a in ('year', 'month', 'day', 'hour', 'minute', 'second')]
        return f == list(exp[1]) + [None] * (6 - len(exp[1]))
    if isinstance(exp, slice):
        return isinstance(got, slice) and all(same(getattr(got, a), getattr(exp, a)) for a in ('start', 'stop', 'step'))
    if isinstance(exp, dict):
        return isinstance(got, dict) and all(same(got.get(k), v) for k, v in exp.items()) and all(got[k] is None or k in exp for k in got)
    if isinstance(exp, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(exp) and all(same(a, b) for a, b in zip(got, exp))
    if isinstance(exp, bool) or exp is None:
        return got is exp
    if isinstance(exp, (int, float)):
        return isinstance(got, (int, float)) and not isinstance(got, bool) and got == exp
    return type(got) == type(exp) and got == exp


def case(t):
    w = W(t)
    c, pos, opts, e = request(w)
    argv = assemble(w, c, list(pos), list(opts), e)
    if any(a.startswith('-') for a in pos):
        return t.seen('skipped')
    mistake = t.rng.random() < .35
    if mistake:
        m = break_it(w, c, pos, opts)
        if m is None:
            return t.seen('no mistake', c)
        kind, argv = m
        t.describe('%s: %r' % (kind, argv))
        before = sorted(os.listdir(D['d']))
        ns, how, lvl, err = parse(argv)
        if t.check(ns is None, 'accepted-' + kind, lambda: '%r\nparsed as %r' % (argv, ns)):
            t.mark('refused')
            t.check(how[0] == 'exception' or how[1] not in (0, None), 'refused-as-success', lambda: '%r: %r' % (argv, how))
            t.check(bool(err), 'refused-without-message', lambda: '%r: %r' % (argv, how))
        t.check(sorted(os.listdir(D['d'])) == before, 'files-left-behind', lambda: '%r' % argv)
        t.seen('mistake', c, kind, len(pos), len(opts), tuple(sorted(w.kinds))[:3])
        return
    t.describe('%r' % argv)
    ns, how, lvl, err = parse(argv)
    t.mark('requests')
    if t.check(ns is not None, 'valid-refused', lambda: '%r\nrefused: %r %s' % (argv, how, err[-300:])):
        for k, v in e.items():
            if k == '_level':
                t.check(lvl == v, 'verbosity', lambda: '%r: level %s, expected %s' % (argv, lvl, v))
            else:
                g = getattr(ns, k, None)
                t.check(same(g, v), 'changed-' + k, lambda: '%r\n%s is %r\nexpected %r' % (argv, k, g, v))
        if c == 'plot':
            extra = {k: v for k, v in vars(ns).items() if k not in e and k not in ('verbose', 'quiet', 'output_var', 'command') and v not in (None,)}
            t.check(not extra or set(extra) <= {'colourbar', 'output'}, 'unrequested-options', lambda: '%r: %r' % (argv, extra))
    t.seen(c, tuple(sorted(w.kinds)), len(pos), len(opts))


def break_it(w, c, pos, opts):
    """(kind of mistake, argv)"""
    r = w.r
    flat = sum(opts, [])
    pos = list(pos)
    ks = ['command', 'flag', 'file', 'no-file', 'empty-file', 'too-many-parts', 'option', 'product', 'missing-positional', 'option-without-value', 'empty-variable', 'too-many-options']
    ks += {'plot': ['type', 'color', 'number', 'global-type', 'global-number', 'projection', 'bins', 'levels'], 'aggregate': ['kernel', 'grid', 'grid', 'grid', 'grid'], 'collapse': ['kernel'],
           'subset': ['limits', 'limits', 'limits', 'limits'], 'eval': ['alias', 'alias', 'attributes', 'output'], 'stats': ['count', 'count'], 'col': ['sample-file', 'sample-option', 'sample-product'], 'info': []}[c]
    k = pick(r, ks)
    name = c
    ng = {'plot': len(pos), 'col': len(pos) - 1, 'eval': len(pos) - 2, 'stats': len(pos)}.get(c, 1)
    i = int(r.integers(0, ng))
    parts = re.split(r'(?<!\\):', pos[i])
    var, fil = (parts[0], parts[1]) if len(parts) > 1 else ('v', parts[0])
    junk = pick(r, ['nosuch', 'Nonsense_Product', 'x1'])
    if k == 'command':
        name = pick(r, ['colocate', 'plott', 'nonsense', 'SUBSET'])
    elif k == 'flag':
        flat += pick(r, [['--nosuch'], ['--nosuch=1'], ['-z']])
    elif k == 'file':
        pos[i] = var + ':' + pick(r, ['missing.nc', fil + ',missing.nc', 'missing dir/', 'missing.nc,' + fil])
    elif k == 'no-file':
        pos[i] = var + ':' + pick(r, ['none*', 'none?.nc', 'z[12].nc'])
    elif k == 'empty-file':
        pos[i] = var + ':'
    elif k == 'empty-variable':
        pos[i] = (':' if c == 'plot' else pick(r, [':', ',:', ',,,:'])) + fil
    elif k == 'too-many-parts':
        pos[i] = var + ':' + fil + ':product=%s:more' % D['products'][0]
    elif k == 'option':
        pos[i] = var + ':' + fil + ':' + pick(r, ['nosuch=1', 'product=%s,nosuch=1' % D['products'][0], 'Product=' + D['products'][0], 'variable=x' if c != 'x' else ''])
    elif k == 'too-many-options':
        pos[i] = var + ':' + fil + ':product=%s,%s' % (D['products'][0], ','.join('n%d=1' % j for j in range(30)))
    elif k == 'product':
        pos[i] = var + ':' + fil + ':product=' + junk
        if c in ('info', 'col', 'subset', 'eval', 'stats') and r.random() < .5:
            pos[i] = var + ':' + fil + ':' + junk
    elif k == 'option-without-value':
        pos[i] = var + ':' + fil + ':' + {'plot': 'color', 'aggregate': 'kernel', 'collapse': 'kernel'}.get(c, 'product')
    elif k == 'missing-positional':
        if c in ('plot', 'info'):
            pos = []
        elif c in ('stats',):
            pos = []
        else:
            pos = pos[:1] if c != 'eval' else pos[:ng] + pos[ng:ng + 1] if ng == 1 else pos[:1]
    elif k in ('type', 'color', 'number', 'levels'):
        pos[i] = var + ':' + fil + ':' + {'type': 'type=piechart', 'color': pick(r, ['color=redd', 'edgecolor=1']), 'number': pick(r, ['itemwidth=wide', 'alpha=half', 'vmin=low', 'contnlevels=2.5', 'contwidth=x', 'cbarscale=x', 'contlabel=yes']),
                                          'levels': pick(r, ['contlevels=[1,x]', 'contlevels=[]', 'contlevels=1234', 'contlevels=(12)'])}[k]
    elif k == 'global-type':
        flat += ['--type', 'piechart']
    elif k == 'global-number':
        flat += pick(r, [['--xmin', 'low'], ['--fontsize', 'big'], ['--height', '1m'], ['--xstep', 'P1X'], ['--ymax', '2008-13'], ['--vmin', '1,2'], ['--gammamax', 'x']])
    elif k == 'projection':
        flat += pick(r, [['--projection', 'Flat'], ['--bias', 'shape'], ['--cbarorient', 'diagonal'], ['--coastlinescolour', 'notacolour']])
    elif k == 'bins':
        flat += pick(r, [['--xbins', '2.5'], ['--ybins', 'many']])
    elif k == 'kernel':
        pos[i] = var + ':' + fil + ':' + pick(r, ['kernel=nosuch', 'kernel=nosuch,product=' + D['products'][0], 'kernel='])
    elif k in ('grid', 'limits'):
        ok = ['y=[0,10,1]', 't', 'z=[1,2,0.5]'] if k == 'grid' else ['y=[0,10]', 't=[2008]', 'z=[1,2]']
        bad = ['=[1,2,3]', '=', '[1,2,3]=x'] if k == 'grid' else ['=[1,2]', 'x', 'y=', 'y=[]', 'y=[1,2', 'y=1,2]', 'y=[1,2,3]', 'y=[a,2]', 'y=[1,b]', 'x=[90,-90]', 'x=[-180,181]', 't=[2008-13]', 't=[2008-01-01,x]', 'y=[1,2]x', 't=[2008-02-30,2009]',
                                                               'altitude=[low,high]', 'y=(1,2)', 't=[2008-01-01T25]', 'y=[1;2]', 'x=[0,360.5]', '']
        if k == 'grid':
            bad += ['y=[0,10', 'y=[0,10,1', 'y=0,10,1]', 'y=[0,10,1]x', 'y=10', 'y=', 'y=[]', 'y=[,10,1]', 'y=[0,,1]', 'y=[0,10,a]', 'y=[a,10,1]', 'x=[90,-90,10]', 'x=[-180,181,10]', 't=[2008,2009,P1X]', 't=[2008,2009,month]', 't=[2008-13,2009,P1M]',
                    'y=(0,10,1)', 'y=[0,10,1,2]', 'y=[5]', 't=[2008-01-01,x,P1D]', '']
        b = pick(r, bad)
        kk = int(r.integers(0, 3))
        if b == '' and kk == 1:
            kk = 0
        pos[1] = b if kk == 0 else b + ',' + pick(r, ok[:2]) if kk == 1 and b.count('[') <= b.count(']') else pick(r, ok[1:]) + ',' + b
        if b == '' and kk != 0:
            pos[1] = ok[0] + ',,' + ok[2]
        k += ' ' + b
    elif k == 'alias':
        pos[i] = pick(r, ['v=', '=a', 'v=a=b', 'v=a,w=a', 'v,v', 'v,w=v']) + ':' + fil
    elif k == 'attributes':
        flat = ['-a', pick(r, ['x', 'x=', '=y', 'a=1,b', ',a=1', 'a=1,,b=2'])]
    elif k == 'output':
        flat = ['-o', pick(r, ['a:b:c', 'a:b:c.nc'])]
    elif k == 'count':
        pos = pick(r, [['v:plain.nc'], ['a,b,c:plain.nc'], ['a:plain.nc', 'b,c:noext'], ['a:plain.nc', 'b:noext', 'c:plain.nc']])
    elif k == 'sample-file':
        pos[-1] = 'missing.nc:collocator=box'
    elif k == 'sample-option':
        pos[-1] = 'plain.nc:' + pick(r, ['nosuch=1', 'collocator=box,nosuch=1', 'variables=x', 'collocator', 'box'])
    elif k == 'sample-product':
        pos[-1] = 'plain.nc:collocator=box,product=' + junk
    return k, [name] + pos + flat
