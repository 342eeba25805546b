"""C25: plots of every type, drawn by the library and by the plot command; what is on the axes (and, for coloured plots, the rendered picture) is compared with the data."""
import datetime
import os
import re
import numpy as np
from vmon import gen, cli

CASES = {'quick': 700, 'thorough': 9000}
CASE_LIMIT = 240
RULE = 'one observation per distinct (kind of plot, kind of data, axes and their order, mask, options, way of calling)'
REQUIRED = {'colourbar_steps': 3, 'colourbars': 75, 'comparative_pairs': 199, 'contour_vertices': 1084,
            'filled_pixels': 342, 'grid_points': 406, 'histogram2d_values': 200, 'histogram_missing': 90, 'histogram_values':
            344, 'legends': 15, 'level_steps': 1, 'limits': 50, 'log_scales': 3, 'map_limits': 56, 'maps': 16, 'mesh_cells':
            873, 'mesh_straight': 15, 'mesh_swapped': 17, 'missing_pairs': 220, 'overlay_cells': 467, 'pairs_checked': 880,
            'pixels': 1674, 'pixels_missing': 261, 'route_command': 120, 'route_method': 103, 'route_plotter': 146, 'steps': 5, 'taylor_biases': 24, 'taylor_points': 64, 'texts': 4, 'time_labels': 380}
ASSUMPTIONS = ['matplotlib and cartopy draw the artists they are given; cartopy can not download coastlines',
               'the colour map and the norm of matplotlib are trusted to turn values into colours']

EPOCH = (datetime.date(1970, 1, 1) - datetime.date(1600, 1, 1)).days


def preload():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot
    import cartopy.crs
    import cis.cis_main
    import cis.plotting.plot
    import cis.plotting.formatted_plot


def setup_worker(wdir):
    import dask
    import cartopy.io.shapereader as sr
    from urllib.error import URLError
    dask.config.set(scheduler='synchronous')
    os.environ['HOME'] = os.path.join(wdir, 'home')
    os.makedirs(os.environ['HOME'])
    os.environ.pop('CIS_PLUGIN_HOME', None)

    def offline(*a, **k):
        raise URLError('no connection')
    sr.natural_earth = offline


# -------------------------------------------------------------------------------------------------------------- the data

UNITS = dict(latitude='degrees', longitude='degrees', altitude='m', air_pressure='hPa')


class Field(object):
    """Some data, with the coordinates and values as arrays which are independent of the object."""

    def __init__(self, data, coords, values, gridded, dims=None, bounds=None, lon=None):
        self.data, self.coords, self.gridded, self.dims, self.bounds, self.lon = data, coords, gridded, dims, bounds, lon
        self.values = np.ma.asarray(values).copy()
        self.mask = np.ma.getmaskarray(self.values).copy()
        self.raw = np.ma.getdata(self.values).copy()

    def pts(self, name):
        """the values of a coordinate as they should be on an axis"""
        return self.coords[name] - EPOCH if name == 'time' else self.coords[name]


def points(r, n=None, which=None, name='v', spread=False, lon=None, coords=None, positive=False, allow_empty=False):
    n = n or int(r.integers(4, 25))
    which = which or ['latitude', 'longitude', 'time'] + [k for k in ('altitude', 'air_pressure') if r.random() < .5]
    shape = (n,)
    if coords is None:
        # places which are apart from each other
        lon = lon or str(r.choice(['west', 'east', 'seam', 'all']))
        x = {'west': (-170, -20), 'east': (10, 170), 'seam': (150, 230), 'all': (2, 358)}[lon]
        g = r.permutation(n)
        co = {'latitude': np.linspace(-60, 55, n)[r.permutation(n)], 'longitude': np.linspace(x[0], x[1], n)[g],
              'time': gen.days(datetime.datetime(2008, 3, 5)) + np.linspace(0, float(r.choice([.4, 3, 40, 900])), n)[r.permutation(n) if r.random() < .5 else slice(None)],
              'altitude': np.linspace(10, 9000, n)[r.permutation(n)], 'air_pressure': np.linspace(1000, 90, n)[r.permutation(n)]}
        coords = {k: np.round(co[k], 6) for k in which}
        if r.random() < .25 and n % 2 == 0 and not spread:
            shape = (2, n // 2)
        coords = {k: v.reshape(shape) for k, v in coords.items()}
    shape = next(iter(coords.values())).shape
    v = r.uniform(1, 50, shape) if positive else np.round(r.normal(3, 10, shape), 4)
    m = str(r.choice(['plain', 'nomask', 'some', 'some', 'most']))
    if m != 'plain':
        mask = r.random(shape) < {'nomask': 0, 'some': .3, 'most': .7}[m]
        if not (~mask).sum() > 2:
            mask[...] = False
        v = np.ma.masked_array(v, mask)
        if r.random() < .5:
            v.data[mask] = float(r.choice([1e20, -999.]))
    return Field(gen.ungridded({k: x.copy() for k, x in coords.items()}, v.copy(), name, 'K'), coords, v, False, lon=lon)


def grid_axis(r, kind, n):
    """points and edges"""
    bounds = r.random() < .5
    if kind == 'latitude':
        s = float(r.integers(-70, 10))
        e = np.linspace(s, s + float(r.integers(20, 60)), n + 1)
    elif kind == 'longitude':
        w = str(r.choice(['east', 'west', 'seam', 'global0', 'global180', 'globalhalf']))
        if w.startswith('global'):
            e = np.linspace(0, 360, n + 1) - {'global0': 0, 'global180': 180, 'globalhalf': 180. / n}[w]
        else:
            s = {'east': float(r.integers(5, 60)), 'west': float(r.integers(-170, -90)), 'seam': float(r.integers(130, 160))}[w]
            e = np.linspace(s, s + float(r.integers(30, 80)), n + 1)
    elif kind == 'time':
        e = gen.days(datetime.datetime(2008, 3, 5)) + np.linspace(0, float(r.choice([.5, 4, 40])), n + 1)
    elif kind == 'air_pressure':
        e = np.linspace(1000, 100, n + 1)
    else:
        e = np.linspace(0, 8000, n + 1)
    p = (e[1:] + e[:-1]) / 2
    if r.random() < .3 and kind != 'longitude' and n > 2:
        # uneven spacing, with bounds
        e = np.concatenate([[e[0]], np.sort(r.choice(np.linspace(e[0], e[-1], 4 * n + 1)[1:-1], n - 1, replace=False)), [e[-1]]])
        if kind == 'air_pressure':
            e = np.sort(e)[::-1]
        p = (e[1:] + e[:-1]) / 2
        bounds = True
    if r.random() < .3:
        p, e = p[::-1].copy(), e[::-1].copy()
    return p, e, bounds


def grid(r, kinds=None, shape=None, name='g', positive=False, like=None):
    from cis.data_io.gridded_data import GriddedData
    from iris.coords import DimCoord
    if like is not None:
        kinds, coords, edges, shape = like.dims, like.coords, like.bounds, like.raw.shape
        dims = [(c, i) for i, c in enumerate(like.data.coords(dim_coords=True))]
    else:
        kinds = kinds or tuple(r.permutation(['latitude', 'longitude', 'time', 'altitude', 'air_pressure'])[:2])
        if shape is None:
            a = int(r.integers(2, 7))
            shape = [(a, a), (a, a + 1), (a + 1, a), (a, int(r.integers(2, 8)))][int(r.integers(0, 4))][:len(kinds)]
        coords, edges, dims = {}, {}, []
        for i, (k, n) in enumerate(zip(kinds, shape)):
            p, e, b = grid_axis(r, k, n)
            coords[k], edges[k] = p, e
            if not b and n > 1:
                # iris guesses bounds half way
                e2 = np.concatenate([[p[0] - (p[1] - p[0]) / 2], (p[1:] + p[:-1]) / 2, [p[-1] + (p[-1] - p[-2]) / 2]])
                edges[k] = e2
            bd = np.stack([e[:-1], e[1:]], 1) if b else None
            dims.append((DimCoord(p, standard_name=k, units=gen.std_time_unit() if k == 'time' else UNITS[k],
                                  var_name={'latitude': 'lat', 'longitude': 'lon'}.get(k, k), bounds=bd), i))
        if r.random() < .3:
            pass
    v = r.uniform(1, 50, shape) if positive else np.round(r.normal(3, 10, shape), 4)
    m = str(r.choice(['plain', 'nomask', 'some', 'some']))
    if m != 'plain':
        mask = r.random(shape) < {'nomask': 0, 'some': .3}[m]
        if (~mask).sum() < 2:
            mask[...] = False
        v = np.ma.masked_array(v, mask)
    extra = {}
    if r.random() < .4 and like is None:
        # a scalar coordinate and a dimension of length one
        left = [k for k in ('altitude', 'time') if k not in kinds]
        if left:
            extra['aux_coords_and_dims'] = [(DimCoord([1.], standard_name=left[0], units='m' if left[0] == 'altitude' else gen.std_time_unit()), None)]
    data = GriddedData(v.copy(), var_name=name, long_name=name + ' long', units='K', dim_coords_and_dims=dims, **extra)
    return Field(data, coords, v, True, tuple(kinds), edges)


# ---------------------------------------------------------------------------------------------------------- ways to draw

class Pic(object):
    def __init__(self, ax, fig, how):
        self.ax, self.fig, self.how = ax, fig, how


def flag(k, v):
    if v is True:
        return ['--' + k]
    if isinstance(v, datetime.timedelta):
        s = int(round(v.total_seconds()))
        return ['--%s=P%dDT%dH%dM%dS' % (k, s // 86400, s // 3600 % 24, s // 60 % 60, s % 60)]
    if isinstance(v, datetime.datetime):
        return ['--%s=%s' % (k, v.isoformat())]
    return ['--%s=%s' % (k, repr(float(v)) if isinstance(v, (float, np.floating)) else v)]


def draw(t, fields, how=None, xaxis=None, yaxis=None, layers=None, fmt=None, route=None, **kw):
    """
    Draw some fields: by the plot method, the Plotter or the command. layers are the options of each field, fmt those which only
    the Plotter has, and kw any others. Returns the picture, or None if it failed.
    """
    import matplotlib.pyplot as plt
    from cis.plotting.formatted_plot import Plotter
    from cis.plotting.plot import multilayer_plot
    plt.close('all')
    plt.rcdefaults()
    route = route or t.rng.choice(['method', 'plotter', 'command'])
    if fmt and route == 'method':
        route = 'plotter'
    fmt = dict(fmt or {})
    kw = {k: v for k, v in kw.items() if v is not None}
    for k, v in (('xaxis', xaxis), ('yaxis', yaxis)):
        if v is not None:
            kw[k] = v
    t.desc['route'] = str(route)
    t.desc['plot'] = dict(how=how, layers=layers, fmt=fmt, **kw)
    t.mark('route_' + route)
    n = len(plt.get_fignums())
    t.plots = getattr(t, 'plots', 0) + 1
    out = t.path('plot%d.' % t.plots + str(t.rng.choice(['png', 'png', 'pdf', 'svg'])))
    if route == 'method':
        kw.setdefault('coastlines', bool(t.rng.random() < .2)) if how in ('scatter2d', 'heatmap', 'contour', 'contourf') else None
        if len(fields) == 1 and not layers:
            res = fields[0].data.plot(how=how, **kw)
        elif len(fields) == 1:
            res = fields[0].data.plot(**dict(kw, how=layers[0].get('type', how), **{k: v for k, v in layers[0].items() if k != 'type'}))
        elif how in ('comparativescatter', 'histogram2d') and t.rng.random() < .5:
            res = fields[1].data.plot(how=how, **dict(kw, xaxis=fields[0].data, **(layers[0] if layers else {})))
        else:
            res = multilayer_plot([f.data for f in fields], how=how, layer_opts=[dict(o) for o in layers] if layers else None, **kw)
        ax = res[1] if isinstance(res, tuple) else res
    elif route == 'plotter':
        opts = dict(kw, layer_opts=[dict(o) for o in layers]) if layers else dict(kw)
        ax = Plotter([f.data for f in fields], type=how, output=out, **dict(fmt, **opts)).ax
    else:
        groups = []
        for i, f in enumerate(fields):
            p = t.path('f%d.nc' % i)
            f.data.save_data(p)
            o = ','.join('%s=%s' % (k, ('[' + ','.join(repr(float(x)) for x in v) + ']') if isinstance(v, list) else str(v).lower() if isinstance(v, bool) else v)
                         for k, v in (layers[i] if layers else {}).items())
            groups.append('%s:%s%s' % (f.data.var_name, p.replace(':', '\\:'), ':' + o if o else ''))
        args = ['plot'] + groups + (['--type', how] if how else []) + ['-o', out]
        for k, v in list(kw.items()) + list(fmt.items()):
            if k == 'colourbar':
                args += ['--nocolourbar']
            elif k not in ('coastlines',) and v is not False:
                args += flag(k, v)
        t.desc['command'] = args
        res = cli.run(args, cwd=t.path(''))
        if res['code'] != 0:
            return t.fail('plot-failed', dict(args=args, err=res['err'][-300:], exc=str(res['exc'])[:300]))
        ax = None
    if not plt.get_fignums():
        return t.fail('nothing-drawn', {})
    fig = plt.gcf() if ax is None else ax.get_figure()
    ax = ax if ax is not None else fig.axes[0]
    if route != 'method':
        head = open(out, 'rb').read(200) if os.path.exists(out) else b''
        ok = {'png': head[:4] == b'\x89PNG', 'pdf': head[:4] == b'%PDF', 'svg': b'<?xml' in head}[out[-3:]]
        t.check(ok, 'output-file', dict(path=out, head=head[:20]))
    return Pic(ax, fig, how)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def clean(x, y):
    """the pairs which are there"""
    m = np.ma.getmaskarray(np.ma.asarray(x)).ravel() | np.ma.getmaskarray(np.ma.asarray(y)).ravel()
    x, y = np.ma.getdata(x).ravel()[~m], np.ma.getdata(y).ravel()[~m]
    ok = np.isfinite(x) & np.isfinite(y)
    return np.stack([x[ok], y[ok]], 1)


def drawn_pairs(line):
    """the points of a line which get drawn"""
    x, y = line.get_data(orig=False)
    return clean(x, y)


# -------------------------------------------------------------------------------------------------------- line, scatter

def axis_label(f, name):
    if name == 'time':
        return 'time'
    return '%s (%s)' % (name, f.data.coord(name).units)


def pairs(t):
    """lines and scatter plots of one or several layers against one coordinate"""
    r = t.rng
    gridded = r.random() < .4
    how = str(r.choice(['line', 'scatter']))
    nl = int(r.choice([1, 1, 2, 3]))
    if gridded:
        k = str(r.choice(['latitude', 'longitude', 'time', 'altitude', 'air_pressure']))
        f = grid(r, (k,), (int(r.integers(2, 12)),))
        fields = [f] + [grid(r, like=f, name='h%d' % i) for i in range(nl - 1)]
        xaxis, yaxis = (k if r.random() < .5 else None), None
        x = k
    else:
        f = points(r)
        if how == 'line' and f.raw.ndim > 1:
            f = points(r, coords={k: v.ravel() for k, v in f.coords.items()})
        fields = [f] + [points(r, coords=f.coords, name='w%d' % i) for i in range(nl - 1)]
        x = str(r.choice(list(f.coords)))
        xaxis, yaxis = x, None
        if r.random() < .3:
            yaxis = str(r.choice([k for k in f.coords if k != x]))
    layers = None
    types = [how] * nl
    mixed = r.random() < .3
    if mixed:
        # Each of the layers has its own type
        types = [str(r.choice(['line', 'scatter'])) for _ in range(nl)] if f.raw.ndim == 1 else types
    if mixed or r.random() < .5:
        layers = []
        for i in range(nl):
            o = {}
            if r.random() < .5:
                o['label'] = 'layer%d' % i
            if r.random() < .4:
                o['color'] = str(r.choice(['red', 'blue', 'green']))
            if r.random() < .4:
                o['itemwidth'] = int(r.integers(2, 8))
            if types[i] == 'scatter' and r.random() < .3:
                o['edgecolor'] = str(r.choice(['black', 'yellow']))
            if r.random() < .3:
                o['itemstyle'] = str(r.choice(['dashed', 'dotted'] if types[i] == 'line' else ['s', '^']))
            # A line is what's drawn by default, for anything which couldn't be a map
            if mixed and not (types[i] == 'line' and (gridded or x != 'longitude') and r.random() < .6):
                o['type'] = types[i]
            layers.append(o)
    ghow = None if mixed else how
    if mixed:
        t.mark('mixed_types' if len(set(types)) > 1 else 'same_types')
    p = draw(t, fields, ghow, xaxis, yaxis, layers)
    t.seen('pairs', how, gridded, nl, x, yaxis, t.desc['route'], tuple(sorted(layers[0])) if layers else None, ghow)
    if p is None:
        return
    lines = p.ax.get_lines()
    if not t.check(len(lines) == nl, 'layers-drawn', dict(lines=len(lines), layers=nl)):
        return
    for i, (f, l) in enumerate(zip(fields, lines)):
        y = f.values if yaxis is None else f.pts(yaxis)
        want = clean(f.pts(x), y)
        got = drawn_pairs(l)
        t.check(close(got, want, 1e-6), 'pairs', dict(layer=i, got=got[:5], want=want[:5], n=(len(got), len(want))))
        t.mark('pairs_checked', len(want))
        t.mark('missing_pairs', int(f.mask.sum()))
        o = layers[i] if layers else {}
        import matplotlib.colors as mc
        marker, style = l.get_marker(), l.get_linestyle()
        how = types[i]
        t.check((marker not in ('None', None, ' ', '')) == (how == 'scatter') and (style not in ('None', None, ' ', '')) == (how == 'line'), 'line-or-points', dict(marker=marker, style=style))
        if 'color' in o:
            t.check(mc.to_rgba(l.get_color()) == mc.to_rgba(o['color']), 'color', dict(want=o, got=l.get_color()))
        if 'edgecolor' in o:
            t.check(mc.to_rgba(l.get_markeredgecolor()) == mc.to_rgba(o['edgecolor']), 'edgecolor', dict(want=o, got=l.get_markeredgecolor()))
        if 'itemwidth' in o:
            t.check((l.get_linewidth() if how == 'line' else l.get_markersize()) == o['itemwidth'], 'itemwidth', dict(want=o))
        if 'itemstyle' in o:
            t.check((style if how == 'line' else marker) == {'dashed': '--', 'dotted': ':'}.get(o['itemstyle'], o['itemstyle']), 'itemstyle', dict(want=o, got=(style, marker)))
    t.check(p.ax.get_xlabel().strip() == axis_label(fields[0], x), 'xlabel', dict(got=p.ax.get_xlabel(), want=axis_label(fields[0], x)))
    last = fields[-1]
    want = last.data.name() + ' (K)' if yaxis is None else axis_label(fields[0], yaxis)
    t.check(p.ax.get_ylabel().strip() == want, 'ylabel', dict(got=p.ax.get_ylabel(), want=want))
    if nl > 1:
        names = [x.get_text() for x in p.ax.get_legend().get_texts()] if p.ax.get_legend() else None
        want = [(layers[i] if layers else {}).get('label', f.data.name() if yaxis is None else None) for i, f in enumerate(fields)]
        if None not in want:
            t.check(names == want, 'legend', dict(got=names, want=want))
            t.mark('legends')
    inverted = (yaxis == 'air_pressure')
    t.check(p.ax.yaxis_inverted() == inverted and not p.ax.xaxis_inverted(), 'inverted', dict(x=x, y=yaxis, inverted=p.ax.yaxis_inverted()))
    visible(t, p, np.concatenate([clean(f.pts(x), f.values if yaxis is None else f.pts(yaxis)) for f in fields]))
    if x == 'time':
        time_labels(t, p)
    if yaxis == 'time':
        time_labels(t, p, 'y')


def visible(t, p, xy):
    """everything is within the limits if there were none given"""
    x, y = sorted(p.ax.get_xlim()), sorted(p.ax.get_ylim())
    e = 1e-9 * max(abs(v) for v in x + y)
    if len(xy):
        t.check(xy[:, 0].min() >= x[0] - e and xy[:, 0].max() <= x[1] + e and xy[:, 1].min() >= y[0] - e and xy[:, 1].max() <= y[1] + e, 'not-visible',
                dict(x=x, y=y, data=(xy.min(0), xy.max(0))))


def time_labels(t, p, axis='x'):
    """the labels of a time axis are the dates of the ticks"""
    p.fig.canvas.draw()
    a = p.ax.xaxis if axis == 'x' else p.ax.yaxis
    lo, hi = sorted(p.ax.get_xlim() if axis == 'x' else p.ax.get_ylim())
    n = 0
    for loc, lab in zip(a.get_majorticklocs(), a.get_ticklabels()):
        s = lab.get_text()
        if not s or not lo <= loc <= hi:
            continue
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=float(loc))
        n += 1
        nums = [float(v) for v in re.findall(r'\d+(?:\.\d+)?', s.split('+')[0])]
        if '-' in s:
            whole = datetime.datetime(*[int(v) for v in nums[:5]], second=int(nums[5]) if len(nums) > 5 else 0) if len(nums) > 3 else datetime.datetime(*[int(v) for v in nums[:3]])
            diff = (d - whole).total_seconds()
            t.check(-1 <= diff < (61 if len(nums) > 3 else 86401), 'time-label', dict(tick=str(d), label=s))
        else:
            secs = nums[0] * 3600 + nums[1] * 60 + (nums[2] if len(nums) > 2 else 0)
            diff = (d.hour * 3600 + d.minute * 60 + d.second + d.microsecond / 1e6 - secs + 43200) % 86400 - 43200
            t.check(abs(diff) <= (1.5 if len(nums) > 2 else 1.5), 'time-label', dict(tick=str(d), label=s))
    t.check(n > 0, 'no-time-labels', dict(xlim=(lo, hi)))
    t.mark('time_labels', n)


# ----------------------------------------------------------------------------------------------------- coloured pictures

def wrap(lon, cl):
    return (np.asarray(lon, float) - cl + 180.) % 360. - 180.


def on_axes(p, x, y):
    """coordinates of the data as coordinates of the axes"""
    proj = getattr(p.ax, 'projection', None)
    if proj is None:
        return np.stack([x, y], -1), None
    cl = float(proj.proj4_params.get('pm', proj.proj4_params.get('lon_0', 0)) or 0)
    return np.stack([wrap(x, cl), y], -1), cl


def render(p):
    p.fig.canvas.draw()
    a = np.asarray(p.fig.canvas.buffer_rgba())[..., :3].astype(int)
    return a


def pixels(p, buf, xy):
    """colours of the picture at the given coordinates (of the axes), nan where they aren't inside"""
    d = p.ax.transData.transform(xy)
    box = p.ax.bbox
    inside = (d[:, 0] > box.x0 + 5) & (d[:, 0] < box.x1 - 5) & (d[:, 1] > box.y0 + 5) & (d[:, 1] < box.y1 - 5)
    out = np.full((len(d), 3), -1)
    for i in np.nonzero(inside)[0]:
        out[i] = buf[buf.shape[0] - 1 - int(d[i, 1]), int(d[i, 0])]
    return out, inside, d


def colour(cmap, norm, v):
    import matplotlib
    return (np.asarray(matplotlib.colormaps[cmap or matplotlib.rcParams['image.cmap']](norm(v)))[..., :3] * 255).round().astype(int)


def norm_of(f, o, log):
    from matplotlib.colors import Normalize, LogNorm
    ok = f.raw[~f.mask]
    lo, hi = o.get('vmin'), o.get('vmax')
    return (LogNorm if log else Normalize)(ok.min() if lo is None else lo, ok.max() if hi is None else hi)


def sane(f, o):
    """no limits of the colours which would be the wrong way around"""
    ok = f.raw[~f.mask]
    if o.get('vmin', ok.min()) >= o.get('vmax', ok.max()):
        o.pop('vmin', None)
        o.pop('vmax', None)


def colour_options(r, log_ok=True):
    o = {}
    if r.random() < .3:
        o['cmap'] = str(r.choice(['plasma', 'RdBu', 'jet']))
    if r.random() < .3:
        o['vmin'] = float(r.choice([2., 5.]))
    if r.random() < .3:
        o['vmax'] = float(r.choice([20., 30.]))
    if log_ok and r.random() < .3:
        o['logv'] = True
    if r.random() < .25:
        o['vstep'] = float(r.choice([5., 2.5]))
    if r.random() < .2:
        o['cbarlabel'] = 'Values'
    if r.random() < .15:
        o['cbarorient'] = str(r.choice(['horizontal', 'vertical']))
    if r.random() < .15:
        o['colourbar'] = False
    if r.random() < .3:
        o['coastlines'] = False
    return o


def colourbar(t, p, o, default, log):
    """the colour bar is there if wanted, with the right label and ticks"""
    bars = [a for a in p.fig.axes if a is not p.ax]
    if not t.check(bool(bars) == o.get('colourbar', True), 'colourbar', dict(bars=len(bars), opts=o)):
        return
    t.mark('colourbars')
    if bars:
        b = bars[0]
        text = b.get_ylabel() or b.get_xlabel()
        t.check(text == o.get('cbarlabel', default), 'colourbar-label', dict(got=text, want=o.get('cbarlabel', default)))
        if 'cbarorient' in o:
            t.check(bool(b.get_xlabel()) == (o['cbarorient'] == 'horizontal'), 'colourbar-orientation', o)
        if 'vstep' in o and not log:
            box = b.get_position()
            loc = (b.xaxis if box.width > box.height else b.yaxis).get_majorticklocs()
            t.check(np.allclose(np.asarray(loc) / o['vstep'], np.round(np.asarray(loc) / o['vstep'])) and (len(loc) < 2 or np.allclose(np.diff(loc), o['vstep'])),
                    'colourbar-ticks', dict(loc=loc, step=o['vstep']))
            t.mark('colourbar_steps')


def map_or_not(t, p, x, y):
    want = (x, y) == ('longitude', 'latitude')
    return t.check(hasattr(p.ax, 'projection') == want, 'map', dict(x=x, y=y, ax=type(p.ax).__name__))


def labels2d(t, p, f, x, y):
    if (x, y) != ('longitude', 'latitude'):
        t.check(p.ax.get_xlabel().strip() == axis_label(f, x), 'xlabel', dict(got=p.ax.get_xlabel(), want=axis_label(f, x)))
        t.check(p.ax.get_ylabel().strip() == axis_label(f, y), 'ylabel', dict(got=p.ax.get_ylabel(), want=axis_label(f, y)))
        t.check(p.ax.yaxis_inverted() == (y == 'air_pressure'), 'inverted', dict(y=y))
    for k, axis in ((x, 'x'), (y, 'y')):
        if k == 'time':
            time_labels(t, p, axis)


def spots(t):
    """coloured points"""
    r = t.rng
    log = r.random() < .3
    f = points(r, spread=True, positive=log or r.random() < .5)
    x, y = [str(k) for k in r.permutation(list(f.coords))[:2]]
    if r.random() < .5:
        x, y = 'longitude', 'latitude'
    o = colour_options(r, False)
    if log:
        o['logv'] = True
    how = 'scatter2d'
    xa, ya = x, y
    if (x, y) == ('longitude', 'latitude') and r.random() < .5:
        how, xa, ya = (None if r.random() < .5 else how), None, None
    route = None
    if o.get('vmin', 0) >= 0 and log and f.raw[~f.mask].min() <= 0:
        o.pop('logv')
        log = False
    sane(f, o)
    p = draw(t, [f], how, xa, ya, route=route, **o)
    t.seen('spots', x, y, tuple(sorted(o)), how, f.mask.any(), f.lon if x == 'longitude' else None, t.desc['route'], f.raw.ndim)
    if p is None or not map_or_not(t, p, x, y):
        return
    labels2d(t, p, f, x, y)
    colourbar(t, p, o, f.data.name() + ' (K)', log)
    picture(t, p, f, f.pts(x).ravel(), f.pts(y).ravel(), f.raw.ravel(), f.mask.ravel(), o, log)


def picture(t, p, f, x, y, v, mask, o, log, gap=9):
    xy, cl = on_axes(p, x, y)
    buf = render(p)
    rgb, inside, d = pixels(p, buf, xy)
    want = colour(o.get('cmap'), norm_of(f, o, log), v)
    if cl is None:
        seam = np.zeros(len(x), bool)
    else:
        seam = np.abs(np.abs(xy[:, 0]) - 180) < 1
    pos = []
    # the visible extent
    for i in np.nonzero(~mask)[0]:
        if not inside[i]:
            bx = p.ax.bbox
            out = d[i, 0] < bx.x0 - 2 or d[i, 0] > bx.x1 + 2 or d[i, 1] < bx.y0 - 2 or d[i, 1] > bx.y1 + 2
            t.check(not out or seam[i], 'not-visible', dict(i=int(i), at=xy[i], xlim=p.ax.get_xlim(), ylim=p.ax.get_ylim()))
            continue
        near = np.hypot(*(d - d[i]).T) < gap
        near[i] = False
        if (near & ~mask).any() or seam[i]:
            continue
        t.mark('pixels')
        t.check(np.abs(rgb[i] - want[i]).max() <= 6, 'colour-at-point', dict(i=int(i), at=xy[i], value=v[i], got=rgb[i], want=want[i]))
    for i in np.nonzero(mask & inside)[0]:
        near = np.hypot(*(d - d[i]).T) < gap
        if not (near & ~mask).any():
            t.mark('pixels_missing')
            t.check((rgb[i] >= 250).all(), 'missing-drawn', dict(i=int(i), at=xy[i], got=rgb[i]))


def two_axes(r, f):
    """axes for a plot of a field with two dimensions: what to ask for and what they should be"""
    a, b = f.dims
    w = str(r.choice(['none', 'both', 'both', 'both', 'x', 'y']))
    order = {'longitude': 2, 'time': 1}
    if w == 'both':
        x, y = (a, b) if r.random() < .5 else (b, a)
        return x, y, x, y
    if w == 'x':
        x = str(r.choice([a, b]))
        return x, None, x, (b if x == a else a)
    if w == 'y':
        y = str(r.choice([a, b]))
        return None, y, (b if y == a else a), y
    return None, None, None, None


def found_axes(t, p, f):
    """which coordinates are on the axes, from their labels"""
    if hasattr(p.ax, 'projection'):
        return 'longitude', 'latitude'
    xl, yl = p.ax.get_xlabel().strip(), p.ax.get_ylabel().strip()
    m = {axis_label(f, k): k for k in f.dims}
    if t.check(xl in m and yl in m and xl != yl, 'axes-not-both-dimensions', dict(x=xl, y=yl, dims=f.dims)):
        return m[xl], m[yl]
    return None


def mesh(t):
    """heatmaps"""
    r = t.rng
    log = r.random() < .25
    f = grid(r, positive=log or r.random() < .3, kinds=('latitude', 'longitude') if r.random() < .2 else None)
    xa, ya, x, y = two_axes(r, f)
    o = colour_options(r, False)
    if log:
        o['logv'] = True
    sane(f, o)
    p = draw(t, [f], None if r.random() < .3 else 'heatmap', xa, ya, **o)
    t.seen('mesh', f.dims, f.raw.shape[0] - f.raw.shape[1], xa, ya, bool(f.mask.any()), tuple(sorted(o)), t.desc['route'])
    if p is None:
        return
    if x is None:
        fa = found_axes(t, p, f)
        if fa is None:
            return
        x, y = fa
    if not map_or_not(t, p, x, y):
        return
    t.mark('mesh_swapped' if f.dims[0] == x else 'mesh_straight')
    labels2d(t, p, f, x, y)
    colourbar(t, p, o, f.data.name() + ' (K)', log)
    v, m = (f.raw, f.mask) if f.dims == (y, x) else (f.raw.T, f.mask.T)
    ex, ey = [f.bounds[k] - EPOCH if k == 'time' else f.bounds[k] for k in (x, y)]
    if not hasattr(p.ax, 'projection'):
        from matplotlib.collections import QuadMesh
        q = [c for c in p.ax.collections if isinstance(c, QuadMesh)]
        if t.check(len(q) == 1, 'one-mesh', dict(n=len(q))):
            c = q[0].get_coordinates() if hasattr(q[0], 'get_coordinates') else q[0]._coordinates
            gx, gy = np.meshgrid(ex, ey)
            t.check(close(c[..., 0], gx, 1e-6) and close(c[..., 1], gy, 1e-6), 'cell-edges', dict(got=(c[0, :, 0], c[:, 0, 1]), want=(ex, ey)))
            a = np.ma.asarray(q[0].get_array()).reshape(v.shape) if q[0].get_array().size == v.size else None
            if t.check(a is not None, 'mesh-shape', dict(got=q[0].get_array().shape, want=v.shape)):
                t.check(bool((np.ma.getmaskarray(a) == m).all()) and close(np.ma.getdata(a)[~m], v[~m]), 'mesh-values', dict(got=a, want=v))
                t.mark('mesh_cells', v.size)
    # pixels in the middle of the cells
    cx, cy = np.meshgrid((ex[1:] + ex[:-1]) / 2, (ey[1:] + ey[:-1]) / 2)
    dx = np.abs(np.diff(p.ax.transData.transform(np.stack([ex, np.full(len(ex), ey[0])], 1))[:, 0])).min()
    dy = np.abs(np.diff(p.ax.transData.transform(np.stack([np.full(len(ey), ex[0]), ey], 1))[:, 1])).min()
    if min(dx, dy) > 6:
        picture(t, p, f, cx.ravel(), cy.ravel(), v.ravel(), m.ravel(), o, log, gap=2)


def contour(t):
    r = t.rng
    how = str(r.choice(['contour', 'contourf']))
    log = r.random() < .2
    n = int(r.integers(3, 8))
    f = grid(r, shape=[(n, n), (n, n + 1), (n + 1, n), (n, int(r.integers(3, 9)))][int(r.integers(0, 4))], positive=log or r.random() < .5,
             kinds=('latitude', 'longitude') if r.random() < .2 else None)
    ok = f.raw[~f.mask]
    xa, ya, x, y = two_axes(r, f)
    o = {}
    levels = None
    w = r.random()
    layers = None
    if w < .35:
        levels = sorted(set(np.round(r.uniform(ok.min(), ok.max(), int(r.integers(2, 5))), 2)))
        if len(levels) < 2:
            levels = sorted({float(np.floor(ok.min())), float(np.ceil(ok.max()))})
        layers = [{'contlevels': [float(v) for v in levels]}]
    elif w < .6 and not log:
        o['vstep'] = float(np.round((ok.max() - ok.min()) / float(r.choice([3, 5, 2.5])), 2))
    elif w < .8:
        layers = [{'contnlevels': int(r.integers(2, 9))}]
    if levels is None and r.random() < .2:
        o['vmin'] = float(np.round(ok.min() + .1 * np.ptp(ok), 3))
    if levels is None and r.random() < .2:
        o['vmax'] = float(np.round(ok.max() - .1 * np.ptp(ok), 3))
    if log:
        o['logv'] = True
    if how == 'contour' and layers and r.random() < .5:
        layers[0]['contwidth'] = 3
    o['coastlines'] = False
    p = draw(t, [f], how, xa, ya, layers, **o)
    t.seen(how, f.dims, f.raw.shape[0] - f.raw.shape[1], xa, ya, bool(f.mask.any()), tuple(sorted(o)), t.desc['route'], levels is not None)
    if p is None:
        return
    if x is None:
        fa = found_axes(t, p, f)
        if fa is None:
            return
        x, y = fa
    if not map_or_not(t, p, x, y):
        return
    labels2d(t, p, f, x, y)
    from matplotlib.contour import ContourSet
    cs = [c for c in p.ax.get_children() if isinstance(c, ContourSet)]
    if not t.check(len(cs) == 1, 'one-contourset', dict(n=len(cs))):
        return
    cs = cs[0]
    got = np.asarray(cs.levels, float)
    if levels is not None:
        t.check(close(got, levels), 'levels', dict(got=got, want=levels))
    elif 'vstep' in o:
        lo, hi = o.get('vmin', ok.min()), o.get('vmax', ok.max())
        t.check(np.allclose(np.diff(got), o['vstep']) and got[0] <= lo + o['vstep'] + 1e-9 and got[-1] >= hi - o['vstep'] - 1e-9, 'level-steps', dict(got=got, step=o['vstep'], range=(lo, hi)))
        t.mark('level_steps')
    v, m = (f.raw, f.mask) if f.dims == (y, x) else (f.raw.T, f.mask.T)
    px, py = f.pts(x), f.pts(y)
    if how == 'contour' and not hasattr(p.ax, 'projection'):
        sx, sy = np.argsort(px), np.argsort(py)
        contour_lines(t, cs, got, px[sx], py[sy], v[np.ix_(sy, sx)], m[np.ix_(sy, sx)], x)
    if how == 'contourf':
        filled(t, p, cs, got, px, py, v, m)


def contour_lines(t, cs, levels, px, py, v, m, x):
    """every vertex lies where the linearly interpolated values reach the level, and there are some wherever they cross it"""
    n = 0
    for lev, path in zip(levels, cs.get_paths()):
        vert = path.vertices
        n += len(vert)
        for a, b in vert:
            if x == 'longitude' and not px[0] - 1e-6 <= a <= px[-1] + 1e-6 and abs((len(px) * (px[1] - px[0])) - 360) < 1e-6:
                continue    # the gap of global data
            i, j = np.interp(b, py, np.arange(len(py))), np.interp(a, px, np.arange(len(px)))
            inside = py[0] - 1e-6 <= b <= py[-1] + 1e-6 and px[0] - 1e-6 <= a <= px[-1] + 1e-6
            if not t.check(inside, 'contour-outside', dict(at=(a, b), x=(px[0], px[-1]), y=(py[0], py[-1]))):
                return
            i0, j0 = min(int(i + 1e-9), len(py) - 1), min(int(j + 1e-9), len(px) - 1)
            i1, j1 = min(i0 + 1, len(py) - 1), min(j0 + 1, len(px) - 1)
            fi, fj = max(i - i0, 0), max(j - j0, 0)
            if fi > 1e-6 and fj > 1e-6:
                continue    # on the diagonal next to a missing corner
            val = sum(w * v[q] for w, q in (((1 - fi) * (1 - fj), (i0, j0)), (fi * (1 - fj), (i1, j0)), ((1 - fi) * fj, (i0, j1))) if w > 1e-12)
            t.mark('contour_vertices')
            if not t.check(abs(val - lev) <= 1e-5 * max(1, np.abs(v).max()), 'contour-vertex', dict(at=(a, b), value=val, level=lev)):
                return
        cross = False
        for i in range(len(py) - 1):
            for j in range(len(px) - 1):
                q = v[i:i + 2, j:j + 2]
                if not m[i:i + 2, j:j + 2].any() and q.min() < lev - 1e-9 and q.max() > lev + 1e-9:
                    cross = True
        t.check(not cross or len(vert) > 0, 'contour-missing', dict(level=lev))


def filled(t, p, cs, levels, px, py, v, m):
    buf = render(p)
    if len(levels) < 2:
        return
    rgba = (np.asarray(cs.to_rgba(cs.cvalues)) * 255).round().astype(int)[:, :3]
    for i in range(len(py)):
        for j in range(len(px)):
            for di, dj in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
                i1, j1 = i + di, j + dj
                if not (0 <= i1 < len(py) and 0 <= j1 < len(px)):
                    continue
                q = [(i, j), (i1, j), (i, j1), (i1, j1)]
                if any(m[k] for k in q):
                    continue
                fr = .08
                val = (1 - fr) ** 2 * v[i, j] + fr * (1 - fr) * (v[i1, j] + v[i, j1]) + fr ** 2 * v[i1, j1]
                lo, hi = min(val, v[i, j]), max(val, v[i, j])
                pad = .03 * np.ptp([v[k] for k in q])
                xy, cl = on_axes(p, np.array([px[j] + fr * (px[j1] - px[j])]), np.array([py[i] + fr * (py[i1] - py[i])]))
                if cl is not None:
                    ends = wrap([px[j], px[j1]], cl)
                    if abs(ends[0] - ends[1]) > 180 or np.abs(np.abs(ends) - 180).min() < 1:
                        continue
                rgb, inside, d = pixels(p, buf, xy)
                if not inside[0]:
                    continue
                # room for the pixel
                bands = [k for k in range(len(levels) - 1) if levels[k] <= hi + pad and levels[k + 1] >= lo - pad]
                if len(bands) != 1 or lo - pad < levels[0] or hi + pad > levels[-1]:
                    continue
                near = p.ax.transData.transform(on_axes(p, np.array([px[j], px[j1]]), np.array([py[i], py[i1]]))[0])
                if np.abs(near[0] - near[1]).min() < 25:
                    continue
                t.mark('filled_pixels')
                if not t.check(np.abs(rgb[0] - rgba[bands[0]]).max() <= 6, 'filled-colour', dict(at=(px[j], py[i]), value=v[i, j], got=rgb[0], want=rgba[bands[0]], levels=levels)):
                    return


def gridspots(t):
    """coloured points of gridded data"""
    r = t.rng
    f = grid(r, kinds=('latitude', 'longitude') if r.random() < .2 else None)
    xa, ya, x, y = two_axes(r, f)
    o = colour_options(r, False)
    sane(f, o)
    p = draw(t, [f], 'scatter2d', xa, ya, **o)
    t.seen('gridspots', f.dims, f.raw.shape[0] - f.raw.shape[1], xa, ya, bool(f.mask.any()), tuple(sorted(o)), t.desc['route'])
    if p is None:
        return
    if x is None:
        fa = found_axes(t, p, f)
        if fa is None:
            return
        x, y = fa
    if not map_or_not(t, p, x, y):
        return
    labels2d(t, p, f, x, y)
    v, m = (f.raw, f.mask) if f.dims == (y, x) else (f.raw.T, f.mask.T)
    gx, gy = np.meshgrid(f.pts(x), f.pts(y))
    picture(t, p, f, gx.ravel(), gy.ravel(), v.ravel(), m.ravel(), o, False)
    from matplotlib.collections import PathCollection
    c = [c for c in p.ax.collections if isinstance(c, PathCollection)]
    if t.check(len(c) == 1, 'one-collection', dict(n=len(c))):
        off, arr = np.ma.asarray(c[0].get_offsets()), np.ma.asarray(c[0].get_array())
        if len(off) != len(arr):
            return
        want = {}
        for a, b, val, mm in zip(gx.ravel(), gy.ravel(), v.ravel(), m.ravel()):
            if not mm:
                want[(round(float(a), 6), round(float(b), 6))] = float(val)
        got = {}
        for (a, b), val, mm, m2 in zip(np.ma.getdata(off), np.ma.getdata(arr).ravel(), np.ma.getmaskarray(arr).ravel(), np.ma.getmaskarray(off).any(1)):
            if not mm and not m2:
                got[(round(float(a), 6), round(float(b), 6))] = float(val)
        if x == 'longitude':
            # a second time at the other end of the globe
            got = {k: val for k, val in got.items() if k in want or (round(k[0] - 360, 6), k[1]) not in want and (round(k[0] + 360, 6), k[1]) not in want}
        t.check(got == want, 'points', dict(extra=sorted(set(got) - set(want))[:4], missing=sorted(set(want) - set(got))[:4], n=(len(got), len(want))))
        t.mark('grid_points', len(want))


# ------------------------------------------------------------------------------------------------------------ histograms

def count(v, edges):
    n = np.zeros(len(edges) - 1)
    for x in v:
        for i in range(len(n)):
            if edges[i] <= x < edges[i + 1] or (i == len(n) - 1 and x == edges[-1]):
                n[i] += 1
    return n


def some_field(r, name='v', like=None):
    if like is not None:
        return grid(r, like=like, name=name) if like.gridded else points(r, coords=like.coords, name=name)
    if r.random() < .4:
        n = int(r.integers(1, 3))
        return grid(r, tuple(str(k) for k in r.permutation(['latitude', 'longitude', 'time', 'altitude'])[:n]), tuple(int(k) for k in r.integers(2, 7, n)), name=name)
    return points(r, name=name)


def histogram(t):
    r = t.rng
    f = some_field(r)
    fields = [f] if r.random() < .6 else [f, some_field(r, 'w', f)]
    ok = np.concatenate([f.raw[~f.mask] for f in fields])
    kw = {}
    w = r.random()
    route = None
    if w < .4:
        kw['xbins'] = int(r.integers(1, 20))
    elif w < .7:
        route = str(r.choice(['method', 'plotter']))
        kw['xbins'] = [float(v) for v in sorted(set(np.round(r.uniform(ok.min() - 1, ok.max() + 1, 6), 1)))]
    layers = None
    if r.random() < .4:
        layers = [{'itemstyle': str(r.choice(['bar', 'step', 'stepfilled']))} for f in fields]
    p = draw(t, fields, 'histogram', layers=layers, route=route, **kw)
    t.seen('histogram', f.gridded, f.raw.ndim, len(fields), bool(f.mask.any()), type(kw.get('xbins')).__name__, layers and layers[0]['itemstyle'], t.desc['route'])
    if p is None:
        return
    from matplotlib.patches import Rectangle, Polygon
    got = []
    rects = [x for x in p.ax.patches if isinstance(x, Rectangle)]
    polys = [x for x in p.ax.patches if isinstance(x, Polygon)]
    for i, f in enumerate(fields):
        v = f.raw[~f.mask]
        b = kw.get('xbins', 10)
        edges = np.linspace(v.min(), v.max(), b + 1) if not isinstance(b, list) else np.asarray(b)
        n = count(v, edges)
        if not isinstance(b, list):
            n = np.histogram(v, edges)[0]
            t.check(n.sum() == len(v), 'histogram-total', {})
        style = layers[i]['itemstyle'] if layers else 'bar'
        if style == 'bar':
            k = len(edges) - 1
            mine, rects = rects[:k], rects[k:]
            ok2 = len(mine) == k and close([x.get_x() for x in mine], edges[:-1], 1e-6) and close([x.get_x() + x.get_width() for x in mine], edges[1:], 1e-6)
            t.check(ok2, 'histogram-bins', dict(want=edges, got=[x.get_x() for x in mine]))
            t.check([x.get_height() for x in mine] == list(n), 'histogram-counts', dict(want=n, got=[x.get_height() for x in mine]))
        else:
            if not t.check(bool(polys), 'histogram-outline', {}):
                return
            xy = polys.pop(0).get_xy()
            # heights over the middle of each of the bins
            hs = []
            for a, c in zip(edges[:-1], edges[1:]):
                mid = (a + c) / 2
                h = [xy[k, 1] for k in range(len(xy) - 1) if xy[k, 1] == xy[k + 1, 1] and min(xy[k, 0], xy[k + 1, 0]) <= mid <= max(xy[k, 0], xy[k + 1, 0])]
                hs.append(max(h) if h else 0)
            t.check(hs == list(n), 'histogram-counts', dict(want=n, got=hs))
        t.mark('histogram_values', int(n.sum()))
        t.mark('histogram_missing', int(f.mask.sum()))
    t.check(p.ax.get_xlabel() == fields[-1].data.name() and p.ax.get_ylabel() == 'Frequency', 'histogram-labels', dict(x=p.ax.get_xlabel(), y=p.ax.get_ylabel()))


def histogram2d(t):
    r = t.rng
    f = some_field(r)
    g = some_field(r, 'w', f)
    kw = {}
    route = None
    if r.random() < .6:
        kw['xbins'], kw['ybins'] = int(r.integers(1, 9)), int(r.integers(1, 9))
    if r.random() < .3:
        kw['logv'] = True
    if r.random() < .2:
        kw['vmin'] = 1.
        kw['vmax'] = 6.
    common = ~f.mask & ~g.mask
    if common.sum() < 1:
        return t.seen('skipped')
    vx, vy = f.raw[common], g.raw[common]
    edges = []
    for v, b in ((vx, 'xbins'), (vy, 'ybins')):
        if v.min() == v.max():
            return t.seen('skipped')
        edges.append(np.linspace(v.min(), v.max(), kw.get(b, 10) + 1))
    xcoord = None
    if r.random() < .2:
        # against a coordinate
        route = 'method'
        names = [k for k in f.coords if k != 'time'] if not f.gridded else [f.dims[0]] if f.raw.ndim == 1 and f.dims[0] != 'time' else []
        if names:
            xcoord = str(r.choice(names))
    if xcoord:
        common = ~f.mask
        vx, vy = f.coords[xcoord][common], f.raw[common]
        if len(vx) < 2 or vx.min() == vx.max() or vy.min() == vy.max():
            return t.seen('skipped')
        edges = [np.linspace(vx.min(), vx.max(), kw.get('xbins', 10) + 1), np.linspace(vy.min(), vy.max(), kw.get('ybins', 10) + 1)]
        p = draw(t, [f], 'histogram2d', xcoord, route='method', **kw)
    else:
        p = draw(t, [f, g], 'histogram2d', route=route, **kw)
    t.seen('histogram2d', f.gridded, f.raw.ndim, bool(f.mask.any()), bool(g.mask.any()), tuple(sorted(kw)), xcoord, t.desc['route'])
    if p is None:
        return
    h = np.histogram2d(vx, vy, edges)[0]
    from matplotlib.collections import Collection
    cs = [c for c in p.ax.collections if c.get_array() is not None]
    if not t.check(len(cs) == 1, 'one-collection', dict(n=len(cs))):
        return
    c = cs[0]
    got = np.zeros(h.shape)
    ex, ey = edges
    arr = np.ma.asarray(c.get_array()).ravel().compressed() if len(c.get_paths()) != np.ma.asarray(c.get_array()).size else np.ma.asarray(c.get_array()).ravel()
    for path, v in zip(c.get_paths(), arr):
        if v is np.ma.masked:
            continue
        b = path.get_extents()
        i, j = np.argmin(np.abs(ex[:-1] - b.x0)), np.argmin(np.abs(ey[:-1] - b.y0))
        t.check(close([b.x0, b.x1, b.y0, b.y1], [ex[i], ex[i + 1], ey[j], ey[j + 1]], 1e-6), 'histogram2d-cell', dict(got=(b.x0, b.x1, b.y0, b.y1), want=(ex, ey)))
        got[i, j] += v
    t.check(bool((got == h).all()) and got.sum() == common.sum(), 'histogram2d-counts', dict(got=got, want=h, n=int(common.sum())))
    t.mark('histogram2d_values', int(common.sum()))
    if kw.get('logv'):
        from matplotlib.colors import LogNorm
        t.check(isinstance(c.norm, LogNorm), 'log-colours', {})
    if 'vmin' in kw:
        t.check((c.norm.vmin, c.norm.vmax) == (kw['vmin'], kw['vmax']), 'colour-limits', dict(got=(c.norm.vmin, c.norm.vmax)))
    names = (xcoord or f.data.name(), f.data.name() if xcoord else g.data.name())
    t.check((p.ax.get_xlabel(), p.ax.get_ylabel()) == names, 'histogram2d-labels', dict(got=(p.ax.get_xlabel(), p.ax.get_ylabel()), want=names))


def comparative(t):
    r = t.rng
    f = some_field(r)
    g = some_field(r, 'w', f)
    layers = None
    if r.random() < .4:
        layers = [{'color': 'red'}, {}]
        if r.random() < .5:
            layers[0]['edgecolor'] = 'blue'
    xcoord = None
    names = [k for k in f.coords if k != 'time'] if not f.gridded else [f.dims[0]] if f.raw.ndim == 1 and f.dims[0] != 'time' else []
    if r.random() < .2 and names:
        xcoord = str(r.choice(names))
        p = draw(t, [f], 'comparativescatter', xcoord, route='method')
        want = clean(f.coords[xcoord], f.values)
        layers = None
    else:
        p = draw(t, [f, g], 'comparativescatter', layers=layers)
        want = clean(f.values, g.values)
    t.seen('comparative', f.gridded, f.raw.ndim, bool(f.mask.any()), bool(g.mask.any()), xcoord, t.desc['route'], bool(layers))
    if p is None:
        return
    lines = p.ax.get_lines()
    if t.check(len(lines) == 2, 'comparative-lines', dict(n=len(lines))):
        got = drawn_pairs(lines[0])
        t.check(close(got, want, 1e-6), 'comparative-pairs', dict(got=got[:4], want=want[:4], n=(len(got), len(want))))
        t.mark('comparative_pairs', len(want))
        a, b = lines[1].get_data()
        t.check(close(a, b), 'identity-line', dict(a=a, b=b))
        visible(t, p, want)
        if layers:
            import matplotlib.colors as mc
            t.check(mc.to_rgba(lines[0].get_color()) == mc.to_rgba('red'), 'color', dict(got=lines[0].get_color()))
    names = (xcoord or f.data.name(), f.data.name() if xcoord else g.data.name())
    t.check((p.ax.get_xlabel(), p.ax.get_ylabel()) == names, 'comparative-labels', dict(got=(p.ax.get_xlabel(), p.ax.get_ylabel()), want=names))


# ----------------------------------------------------------------------------------------------------------------- Taylor

def taylor(t):
    r = t.rng
    f = some_field(r)
    fields = [f] + [some_field(r, 'w%d' % i, f) for i in range(int(r.integers(1, 4)))]
    kw = {}
    log = r.random() < .25
    if log:
        kw['logv'] = True
        # values which have a logarithm, and some missing which don't
        new = []
        for q in fields:
            v = np.ma.masked_array(np.abs(q.raw) % 100 + .5, q.mask)
            v.data[q.mask] = -1.
            q.data.data = v.copy()
            new.append(Field(q.data, q.coords, v, q.gridded, q.dims, q.bounds))
        fields = new
    w = r.random()
    if w < .2:
        kw['bias'] = str(r.choice(['color', 'colour']))
    elif w < .4:
        kw['bias'] = 'flag'
    elif w < .6:
        kw['bias'] = 'size'
    if r.random() < .2:
        kw['solid'] = True
    kw['extend'] = -1. if r.random() < .6 else 0.
    if r.random() < .2:
        kw['gammamax'] = 1.5
    layers = [{'label': 'D%d' % i} for i in range(len(fields))] if r.random() < .4 else None
    ref = fields[0]
    for q in fields:
        c = ~q.mask & ~ref.mask
        if c.sum() < 3 or np.std(q.raw[c]) == 0 or np.std(ref.raw[c]) == 0:
            return t.seen('skipped')
    p = draw(t, fields, 'taylor', layers=layers, **kw)
    t.seen('taylor', f.gridded, f.raw.ndim, len(fields), tuple(sorted(kw.items())), t.desc['route'], any(q.mask.any() for q in fields), bool(layers))
    if p is None:
        return
    tr = (lambda v: np.log(v)) if log else (lambda v: v)
    want = []
    own = [tr(q.raw[~q.mask]) for q in fields]
    for q, a in zip(fields, own):
        c = ~q.mask & ~ref.mask
        u, v = tr(q.raw[c]), tr(ref.raw[c])
        corr = ((u - u.mean()) * (v - v.mean())).sum() / np.sqrt(((u - u.mean()) ** 2).sum() * ((v - v.mean()) ** 2).sum())
        gamma = a.std(ddof=1) / own[0].std(ddof=1)
        bias = (a.mean() - own[0].mean()) / own[0].std(ddof=1)
        want.append((corr, gamma, bias))
    want = np.array(want)
    aux = list(p.ax.parasites)
    if not t.check(len(aux) == 1, 'taylor-axes', dict(n=len(aux))):
        return
    aux = aux[0]
    labels = [layers[i]['label'] if layers else q.data.name() for i, q in enumerate(fields)]
    if kw.get('bias') in ('color', 'colour'):
        cs = [c for c in aux.collections if c.get_array() is not None]
        got = np.array([np.asarray(c.get_offsets())[0] for c in cs])
        names = [c.get_label() for c in cs]
        t.check(close([c.get_array()[0] for c in cs], want[:, 2]), 'taylor-bias', dict(got=[c.get_array()[0] for c in cs], want=want[:, 2]))
        n = [tuple(round(float(v), 9) for v in (c.norm.vmin, c.norm.vmax)) for c in cs]
        m = round(float(np.abs(want[:, 2]).max()), 9)
        t.check('gammamax' in kw or all(abs(a + b) < 1e-8 and abs(b - m) < 1e-6 for a, b in n), 'taylor-bias-scale', dict(got=n, want=m))
        t.mark('taylor_biases', len(cs))
    else:
        ls = [l for l in aux.get_lines() if len(l.get_xdata()) == 1]
        got = np.array([(np.ravel(l.get_xdata())[0], np.ravel(l.get_ydata())[0]) for l in ls])
        names = [l.get_label() for l in ls]
        if kw.get('bias') == 'size' and len(ls) == len(want) and 'gammamax' not in kw:
            s = np.array([l.get_markersize() for l in ls])
            b = np.abs(want[:, 2])
            t.check(all(s[i] <= s[j] + 1e-9 for i in range(len(s)) for j in range(len(s)) if b[i] < b[j] - 1e-9), 'taylor-size', dict(size=s, bias=b))
            mk = [l.get_marker() for l in ls]
            t.check(all((a == '^') == (v > 1e-12) and (a == 'v') == (v < -1e-12) for a, v in zip(mk, want[:, 2]) if abs(v) > 1e-9), 'taylor-marker', dict(marker=mk, bias=want[:, 2]))
            t.mark('taylor_biases', len(s))
        if kw.get('bias') == 'flag':
            flags = [l for l in p.ax.get_lines() if len(l.get_xdata()) == 2]
            for (corr, gamma, b) in want[1:]:
                x, y = gamma * corr, gamma * np.sqrt(1 - corr ** 2)
                mine = [l for l in flags if np.allclose([l.get_xdata()[0], l.get_ydata()[0]], [x, y], atol=1e-6)]
                e = np.sqrt(1 + gamma * (gamma - 2 * corr))
                if e > 1e-3:
                    ln = [np.hypot(np.diff(l.get_xdata())[0], np.diff(l.get_ydata())[0]) for l in mine]
                    t.check(any(abs(v - abs(b)) < 1e-6 for v in ln), 'taylor-flag', dict(at=(x, y), bias=b, got=ln))
                    t.mark('taylor_biases')
    t.check(close(got, want[:, :2], 1e-6), 'taylor-points', dict(got=got, want=want[:, :2]))
    t.mark('taylor_points', len(want))
    t.check([n.split(' $')[0] for n in names] == labels, 'taylor-labels', dict(got=names, want=labels))


# -------------------------------------------------------------------------------------------------- limits and formatting

def formatting(t):
    r = t.rng
    how = str(r.choice(['line', 'scatter', 'scatter2d', 'heatmap']))
    if how == 'heatmap':
        f = grid(r, positive=True)
        while set(f.dims) == {'latitude', 'longitude'}:
            f = grid(r, positive=True)
        x, y = f.dims if r.random() < .5 else f.dims[::-1]
    else:
        f = points(r, positive=True, which=['latitude', 'longitude', 'time', 'altitude', 'air_pressure'])
        if how == 'line' and f.raw.ndim > 1:
            f = points(r, coords={k: v.ravel() for k, v in f.coords.items()}, positive=True)
        x = str(r.choice(['latitude', 'time', 'altitude', 'air_pressure', 'time']))
        y = None
        if how == 'scatter2d':
            y = str(r.choice([k for k in ('latitude', 'altitude', 'air_pressure', 'time') if k != x]))
        elif r.random() < .4:
            y = str(r.choice([k for k in ('altitude', 'air_pressure', 'time') if k != x]))
    xv = f.pts(x)[~f.mask] if not f.gridded else f.pts(x)
    yv = (f.pts(y)[~f.mask] if not f.gridded else f.pts(y)) if y else f.raw[~f.mask]
    fmt = {}
    lim = {}
    for a, v in (('x', xv), ('y', yv)):
        lo, hi = float(np.min(v)), float(np.max(v))
        a0, a1 = lo + (hi - lo) * float(r.uniform(-.2, .3)), lo + (hi - lo) * float(r.uniform(.5, 1.2))
        time = (x if a == 'x' else y) == 'time'
        if time:
            d = [datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(q * 86400)) for q in (a0, a1)]
            a0, a1 = [(q - datetime.datetime(1970, 1, 1)).total_seconds() / 86400. for q in d]
        else:
            a0, a1 = round(a0, 3), round(a1, 3)
            d = a0, a1
        if r.random() < .5:
            fmt[a + 'min'], lim[a + 'min'] = d[0], a0
        if r.random() < .5:
            fmt[a + 'max'], lim[a + 'max'] = d[1], a1
        if r.random() < .4:
            s = (a1 - a0) / float(r.integers(2, 7))
            if time:
                s = max(round(s * 86400.), 1)
                fmt[a + 'step'], lim[a + 'step'] = datetime.timedelta(seconds=s), s / 86400.
            else:
                s = float('%.2g' % s)
                if s > 0:
                    fmt[a + 'step'] = lim[a + 'step'] = s
    logx = x in ('altitude', 'air_pressure') and r.random() < .5 and all(lim.get(k, 1) > 0 for k in ('xmin', 'xmax')) and 'xstep' not in lim
    logy = (y in ('altitude', 'air_pressure') or y is None) and how != 'heatmap' and r.random() < .5 and all(lim.get(k, 1) > 0 for k in ('ymin', 'ymax')) and 'ystep' not in lim
    if how == 'heatmap':
        logx = False
    if logx:
        fmt['logx'] = True
    if logy:
        fmt['logy'] = True
    for k, v in (('title', 'Some title'), ('xlabel', 'Some x'), ('ylabel', 'Some y'), ('grid', True), ('fontsize', 9.)):
        if r.random() < .2:
            fmt[k] = v
    if r.random() < .4:
        fmt['height'] = float(r.choice([3, 4.5]))
    if r.random() < .4:
        fmt['width'] = float(r.choice([5, 7.5]))
    free = draw(t, [f], how, x, y, fmt={k: v for k, v in fmt.items() if k in ('logx', 'logy')}, route='plotter')
    if free is None:
        return
    xl0, yl0 = free.ax.get_xlim(), free.ax.get_ylim()
    p = draw(t, [f], how, x, y, fmt=fmt, route=str(r.choice(['plotter', 'command'])))
    t.seen('format', how, x, y, tuple(sorted(fmt)), t.desc['route'])
    if p is None:
        return
    ax = p.ax
    inv = y == 'air_pressure'
    for a, got, was, iv in (('x', ax.get_xlim(), xl0, False), ('y', ax.get_ylim(), yl0, inv)):
        want = sorted(was)
        given = [lim.get(a + 'min'), lim.get(a + 'max')]
        want = [g if g is not None else w for g, w in zip(given, want)]
        if want[0] >= want[1]:
            continue
        if iv:
            want = want[::-1]
        e = 1e-6 * max(1, abs(want[0] - want[1]))
        t.check(abs(got[0] - want[0]) < e and abs(got[1] - want[1]) < e, 'limits', dict(axis=a, got=got, want=want, given=given))
        t.mark('limits', sum(g is not None for g in given))
        if a + 'step' in lim:
            lo, hi = sorted(want)
            loc = np.sort(np.asarray((ax.xaxis if a == 'x' else ax.yaxis).get_majorticklocs(), float))
            loc = loc[(loc >= lo - e) & (loc <= hi + e)]
            wt = np.arange(lo, hi + e, lim[a + 'step'])
            t.check(close(loc, wt, 1e-5) if len(loc) == len(wt) else False, 'steps', dict(axis=a, got=loc, want=wt))
            t.mark('steps')
    t.check(ax.get_xscale() == ('log' if logx else 'linear') and ax.get_yscale() == ('log' if logy else 'linear'), 'log-scales', dict(got=(ax.get_xscale(), ax.get_yscale()), want=(logx, logy)))
    if logx or logy:
        t.mark('log_scales')
    for k, got in (('title', ax.get_title()), ('xlabel', ax.get_xlabel()), ('ylabel', ax.get_ylabel())):
        if k in fmt:
            t.check(got == fmt[k], 'text', dict(which=k, got=got, want=fmt[k]))
            t.mark('texts')
    w, h = fmt.get('width'), fmt.get('height')
    size = (8, 6) if w is None and h is None else (w or h * 4 / 3., h or w * 3 / 4.)
    t.check(close(p.fig.get_size_inches(), size), 'size', dict(got=p.fig.get_size_inches(), want=size))
    if fmt.get('grid'):
        t.check(any(g.get_visible() for g in ax.get_xgridlines()), 'grid', {})
    if how in ('line', 'scatter'):
        want = clean(f.pts(x), f.values if y is None else f.pts(y))
        got = drawn_pairs(ax.get_lines()[0])
        t.check(close(got, want, 1e-6), 'pairs', dict(got=got[:5], want=want[:5]))
    if x == 'time' and 'xstep' not in fmt:
        time_labels(t, p)


def map_limits(t):
    """limits and steps of maps"""
    r = t.rng
    f = points(r, spread=True) if r.random() < .6 else None
    if f is None:
        f = grid(r, kinds=('latitude', 'longitude') if r.random() < .5 else ('longitude', 'latitude'))
        lons, lats = f.bounds['longitude'], f.bounds['latitude']
    else:
        lons, lats = f.coords['longitude'], f.coords['latitude']
    fmt = {}
    # a region of the longitudes as they are or in the other convention
    x0, x1 = float(lons.min()), float(lons.max())
    a0, a1 = round(x0 + (x1 - x0) * float(r.uniform(-.02, .3)), 1), round(x0 + (x1 - x0) * float(r.uniform(.5, 1.02)), 1)
    if r.random() < .6:
        fmt['xmin'] = a0
    if r.random() < .6:
        fmt['xmax'] = a1
    y0, y1 = float(lats.min()), float(lats.max())
    b0, b1 = max(round(y0 + (y1 - y0) * float(r.uniform(-.1, .3)), 1), -89.), min(round(y0 + (y1 - y0) * float(r.uniform(.5, 1.1)), 1), 89.)
    if r.random() < .5:
        fmt['ymin'] = b0
    if r.random() < .5:
        fmt['ymax'] = b1
    if r.random() < .3:
        fmt['xstep'] = float(r.choice([7, 10]))
    if r.random() < .3:
        fmt['ystep'] = float(r.choice([5, 7]))
    o = {}
    p = draw(t, [f], 'heatmap' if f.gridded else 'scatter2d', 'longitude', 'latitude', fmt=fmt, route=str(r.choice(['plotter', 'command'])), coastlines=False)
    t.seen('map', f.gridded, f.lon, tuple(sorted(fmt)), t.desc['route'], int(x0 // 90), int(x1 // 90))
    if p is None or not map_or_not(t, p, 'longitude', 'latitude'):
        return
    e = p.ax.get_extent()
    _, cl = on_axes(p, np.array([0.]), np.array([0.]))
    t.mark('maps')
    for k, i in (('ymin', 2), ('ymax', 3)):
        if k in fmt:
            t.check(abs(e[i] - fmt[k]) < 1e-3, 'map-limits', dict(which=k, extent=e, want=fmt[k]))
            t.mark('map_limits')
    lon = lambda v: wrap(v, cl)
    left, right = float(lon(a0)), float(lon(a1))
    if right <= -180 + 1e-6:
        right = 180.
    across = a1 - a0 > 359 or left >= right
    if not across:
        if 'xmin' in fmt:
            t.check(abs(e[0] - left) < 1e-3, 'map-limits', dict(which='xmin', extent=e, want=left, cl=cl, given=fmt))
            t.mark('map_limits')
        if 'xmax' in fmt:
            t.check(abs(e[1] - right) < 1e-3, 'map-limits', dict(which='xmax', extent=e, want=right, cl=cl, given=fmt))
            t.mark('map_limits')
    if ('xmin' in fmt or 'xmax' in fmt) and (across or float(lon(x0)) + x1 - x0 > 180 + 1e-6):
        return    # the data is on both sides of the edge of the map
    # every value within the limits is visible, with its colour
    if f.gridded:
        v, m = (f.raw, f.mask) if f.dims == ('latitude', 'longitude') else (f.raw.T, f.mask.T)
        ex, ey = lons, lats
        gx, gy = np.meshgrid((ex[1:] + ex[:-1]) / 2, (ey[1:] + ey[:-1]) / 2)
        gx, gy, v, m = gx.ravel(), gy.ravel(), v.ravel(), m.ravel()
    else:
        gx, gy, v, m = f.coords['longitude'].ravel(), f.coords['latitude'].ravel(), f.raw.ravel(), f.mask.ravel()
    within = (gy >= fmt.get('ymin', -91)) & (gy <= fmt.get('ymax', 91)) & (gx >= fmt.get('xmin', -1e9)) & (gx <= fmt.get('xmax', 1e9))
    if f.gridded:
        d = p.ax.transData.transform(np.array([[0, 0], [np.abs(np.diff(lons)).min(), np.abs(np.diff(lats)).min()]]))
        if np.abs(d[0] - d[1]).min() < 8:
            return
    hidden = ~within & ~m
    picture(t, p, f, gx, gy, v, m | hidden, o, False) if not f.gridded and not hidden.any() else sub_picture(t, p, f, gx, gy, v, m, within, o)


def sub_picture(t, p, f, x, y, v, m, within, o):
    xy, cl = on_axes(p, x, y)
    buf = render(p)
    rgb, inside, d = pixels(p, buf, xy)
    want = colour(None, norm_of(f, o, False), v)
    bx = p.ax.bbox
    for i in np.nonzero(within & ~m)[0]:
        if np.abs(np.abs(xy[i, 0]) - 180) < 1:
            continue
        out = d[i, 0] < bx.x0 - 2 or d[i, 0] > bx.x1 + 2 or d[i, 1] < bx.y0 - 2 or d[i, 1] > bx.y1 + 2
        t.check(not out, 'not-visible', dict(at=xy[i], extent=p.ax.get_extent(), lon=(x.min(), x.max()), cl=cl))
        near = np.hypot(*(d - d[i]).T) < (2 if f.gridded else 9)
        near[i] = False
        if inside[i] and not (near & ~m).any():
            t.mark('pixels')
            t.check(np.abs(rgb[i] - want[i]).max() <= 6, 'colour-at-point', dict(at=xy[i], value=v[i], got=rgb[i], want=want[i]))


def overlay(t):
    """layers of different types"""
    r = t.rng
    f = grid(r, shape=(int(r.integers(3, 7)), int(r.integers(3, 7))))
    g = grid(r, like=f, name='h')
    x, y = f.dims if r.random() < .5 else f.dims[::-1]
    second = str(r.choice(['contour', 'scatter2d']))
    layers = [{'type': 'heatmap'}, {'type': second}]
    if second == 'contour':
        layers[1]['color'] = 'white'
    if r.random() < .5:
        layers[0]['cmap'] = 'plasma'
    p = draw(t, [f, g], None, x, y, layers, coastlines=False)
    t.seen('overlay', f.dims, x, second, t.desc['route'], bool(f.mask.any()), bool(g.mask.any()))
    if p is None or not map_or_not(t, p, x, y):
        return
    from matplotlib.collections import QuadMesh, PathCollection
    from matplotlib.contour import ContourSet
    if (x, y) == ('longitude', 'latitude'):
        return
    t.check(p.ax.yaxis_inverted() == (y == 'air_pressure'), 'inverted', dict(y=y))
    turn = (lambda a: a) if f.dims == (y, x) else (lambda a: a.T)
    q = [c for c in p.ax.collections if isinstance(c, QuadMesh)]
    if t.check(len(q) == 1 and q[0].get_array().size == f.raw.size, 'one-mesh', dict(n=len(q))):
        a, v, m = np.ma.asarray(q[0].get_array()).reshape(turn(f.raw).shape), turn(f.raw), turn(f.mask)
        t.check(bool((np.ma.getmaskarray(a) == m).all()) and close(np.ma.getdata(a)[~m], v[~m]), 'mesh-values', dict(got=a, want=v))
        t.mark('overlay_cells', v.size)
        t.check(q[0].get_cmap().name == layers[0].get('cmap', 'viridis'), 'colour-map', dict(got=q[0].get_cmap().name))
    px, py, v, m = f.pts(x), f.pts(y), turn(g.raw), turn(g.mask)
    if second == 'contour':
        cs = [c for c in p.ax.get_children() if isinstance(c, ContourSet)]
        if t.check(len(cs) == 1, 'one-contourset', dict(n=len(cs))):
            sx, sy = np.argsort(px), np.argsort(py)
            contour_lines(t, cs[0], np.asarray(cs[0].levels, float), px[sx], py[sy], v[np.ix_(sy, sx)], m[np.ix_(sy, sx)], x)
    else:
        cs = [c for c in p.ax.collections if isinstance(c, PathCollection)]
        if t.check(len(cs) == 1, 'one-collection', dict(n=len(cs))):
            arr = np.ma.asarray(cs[0].get_array()).compressed()
            ok = v[~m]
            t.check(set(np.round(ok, 6)) <= set(np.round(arr, 6)) and set(np.round(arr, 6)) <= set(np.round(ok, 6)), 'points', dict(n=(len(arr), len(ok))))


KINDS = [pairs, spots, mesh, contour, gridspots, histogram, histogram2d, comparative, taylor, formatting, map_limits, overlay, mesh, pairs]


def case(t):
    import matplotlib.pyplot as plt
    k = KINDS[t.index % len(KINDS)]
    t.describe(dict(kind=k.__name__))
    t.mark('kind_' + k.__name__)
    try:
        k(t)
    finally:
        plt.close('all')
