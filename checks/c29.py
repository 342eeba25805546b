"""C29: kernels and constraints written by users.

The monitors are plug-ins themselves: kernels and constraints which log every call (the point, the coordinates and the
values of the data points they are handed, the indices) and answer with values that identify the call.  The log and the
output are then compared with a reference grouping, built from geometry in which it is beyond doubt which points belong
to which sample."""
import numpy as np
from vmon import gen

CASES = {'quick': 1400, 'thorough': 9000}
RULE = ('one observation per distinct (route, kernel class, number of outputs, coordinates and their order, geometry class, '
        'missing samples?, variables, masks) in which every call of the plug-in and every output value was compared with '
        'the reference grouping')
REQUIRED = {'kernel_calls': 1000, 'data_only_calls': 300, 'constraint_calls': 500, 'points_handed_over': 1000,
            'kernel_gave_up': 50, 'answers_zero': 50, 'kernel_returned_nan': 20, 'samples_skipped': 50, 'empty_constraint_calls': 50,
            'several_outputs': 100, 'route_box': 50, 'route_box_grid': 50, 'route_bin': 50, 'route_aggregate': 50,
            'route_constraint': 50, 'route_constraint_grid': 50, 'route_cells': 50, 'route_indices': 50,
            'later_variable': 50, 'transposed_sample': 50}
ASSUMPTIONS = ['the points lie well inside their cell or separation (which points are selected at edges is C01 and C06)',
               'a user constraint returns points in the form in which it was given them (rows of the data frame, or a '
               'HyperPointList)']

STEP = dict(latitude=10., longitude=10., altitude=1000., air_pressure=200., time=2.)
BASE = dict(latitude=-25., longitude=15., altitude=500., air_pressure=100., time=150000.5)
JIT = dict(latitude=.1, longitude=.1, altitude=10., air_pressure=1., time=.01)
SEP = dict(altitude=('a_sep', 100), air_pressure=('p_sep', 1.1), time=('t_sep', 'PT6H'))
ROUTES = ['box', 'box_grid', 'bin', 'aggregate', 'constraint', 'constraint_grid', 'cells', 'indices']


def classes():
    from cis.collocation.col_framework import Kernel, AbstractDataOnlyKernel, PointConstraint, CellConstraint, \
        IndexedConstraint, Constraint
    from cis.data_io.hyperpoint import HyperPointList

    class Log(object):
        def __init__(self, size, answer):
            self.return_size = size
            self.answer = answer
            self.calls = []
            self.log = self.calls

        def get_variable_details(self, name, long_name, standard_name, units):
            if self.return_size == 1:
                return ((name + '_mine', long_name + ' of mine', standard_name, units),)
            return tuple(('%s_%d' % (name, i), '%s number %d' % (long_name, i), None, units if i else 'm')
                         for i in range(self.return_size))

        def value(self, ids):
            return self.answer(np.sort(np.asarray(ids, float)))

    class PointKernel(Log, Kernel):
        def get_value(self, point, data):
            self.log.append((position(point), rows(data)))
            return self.value([v for _, v in self.log[-1][1]])

    class ValuesKernel(Log, AbstractDataOnlyKernel):
        def get_value_for_data_only(self, values):
            self.log.append((None, [(None, float(v)) for v in np.asarray(values)]))
            return self.value(values)

    def near(point, other, names):
        for k in names:
            d = getattr(point, k) - getattr(other, k)
            if k == 'longitude':
                d = (d + 180) % 360 - 180
            if abs(d) > STEP[k] / 4:
                return False
        return True

    class Near(object):
        """The points near the sample point, whatever they are given as."""
        def __init__(self, names):
            self.names, self.calls = names, []

        def constrain_points(self, point, data):
            self.calls.append(position(point))
            if hasattr(data, 'iloc'):
                return data.iloc[[i for i, (_, p) in enumerate(data.iterrows()) if near(point, p, self.names)]]
            out = HyperPointList()
            for p in data:
                if near(point, p, self.names):
                    out.append(p)
            return out

    class NearPoints(Near, PointConstraint):
        pass

    class NearAny(Near, Constraint):
        pass

    class InCell(CellConstraint):
        def __init__(self, names):
            self.names, self.calls = names, []

        def constrain_points(self, point, data):
            self.calls.append({k: float(np.mean(getattr(point, k).bound)) for k in self.names})
            out = HyperPointList()
            for p in data:
                if all(getattr(point, k).contains_point(getattr(p, k)) for k in self.names):
                    out.append(p)
            return out

    class AtIndices(IndexedConstraint):
        """Hands over the single point whose number goes with the indices."""
        def __init__(self, names):
            self.names, self.calls = names, []

        def constrain_points(self, point, data):
            self.calls.append(tuple(int(i) for i in point))
            out = HyperPointList()
            data = list(data)
            out.append(data[(len(self.calls) - 1) % len(data)])
            return out

    return dict(point=PointKernel, values=ValuesKernel, points=NearPoints, any=NearAny, cells=InCell, indices=AtIndices)


NAMES = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


def position(point):
    out = {}
    for k in NAMES:
        v = getattr(point, k, None)
        if v is not None:
            out[k] = float(v)
    return out


def rows(data):
    """The points handed to a kernel: their position and value."""
    if hasattr(data, 'iloc'):
        cols = [k for k in NAMES if k in data]
        return [({k: float(data[k].values[i]) for k in cols}, float(data['vals'].values[i])) for i in range(len(data))]
    return [(position(p), float(p.val[0])) for p in data]


def answer(kind, size):
    def one(ids):
        if kind == 'gives up' and len(ids) % 3 == 1:
            raise ValueError('not this one')
        if kind == 'nan' and len(ids) % 3 == 1:
            return np.nan
        if kind == 'zero' and len(ids) % 2 == 1:
            return 0.0
        # identifies the points exactly
        return float(np.sum((ids - 1000) ** 2)) + 1000. * len(ids) + 0.5
    if size == 1:
        return one
    return lambda ids: [one(ids) + i * 0.125 for i in range(size)]


def same_place(a, b, tol=1e-6):
    if set(a) != set(b):
        return False
    return all(abs(a[k] - b[k]) < tol or (k == 'longitude' and abs((a[k] - b[k] + 180) % 360 - 180) < tol) for k in a)


def ungridded(coords, values, name, units='1'):
    """With the coordinates in the order given."""
    from cis.data_io.ungridded_data import UngriddedData
    from cis.data_io.Coord import CoordList
    return UngriddedData(values, gen.meta(name=name, long_name=name + ' long', units=units),
                         CoordList([gen.coord(k, v) for k, v in coords.items()]))


def preload():
    import cis.collocation.col_implementations      # noqa
    import cis.data_io.gridded_data                 # noqa


def case(t):
    r = t.rng
    K = classes()
    route = ROUTES[t.index % len(ROUTES)]
    t.mark('route_' + route)
    # (the cells of a time are dates)
    third = [k for k in ['altitude', 'air_pressure', 'time'] if r.random() < 0.25 and (route, k) != ('cells', 'time')][:1]
    names = ['latitude', 'longitude'] + third
    shape = [int(r.integers(1, 4)) for _ in names]
    if route not in ('box', 'constraint', 'aggregate'):
        shape = [max(2, s) for s in shape]
    if route in ('constraint_grid', 'cells', 'indices'):
        shape = [min(3, s) for s in shape]
    centres = {k: BASE[k] + STEP[k] * np.arange(s) for k, s in zip(names, shape)}
    shift = float(r.choice([0, 0, 150., -190.])) if route != 'aggregate' else 0.
    centres['longitude'] = centres['longitude'] + shift
    if route not in ('aggregate',) and r.random() < 0.3:
        k = str(r.choice(names))
        centres[k] = centres[k][::-1].copy()
    ncell = int(np.prod(shape))
    cells = list(np.ndindex(*shape))                      # over names
    profile = str(r.choice(['sparse', 'ones', 'full']))
    per = r.integers(*{'sparse': (0, 4), 'ones': (0, 2), 'full': (1, 6)}[profile], size=ncell)
    if per.sum() == 0:
        per[0] = 1
    group = np.repeat(np.arange(ncell), per)
    r.shuffle(group)
    n = len(group)
    pos = {k: np.array([centres[k][cells[g][a]] for g in group]) + r.uniform(-1, 1, n) * JIT[k]
           for a, k in enumerate(names)}
    lon = pos['longitude'].copy()
    if route != 'aggregate' and r.random() < 0.4:
        pos['longitude'] = lon + 360. * r.choice([-1, 1])
    extra = [k for k in ['altitude', 'air_pressure', 'time'] if k not in names and r.random() < 0.15][:1]
    data_names = [str(k) for k in r.permutation(names + extra)]
    for k in extra:
        pos[k] = r.uniform(200, 900, n)
    nvar = int(r.choice([1, 1, 2, 3]))
    variables, valid = [], []
    for v in range(nvar):
        vals = np.arange(n) + 1000.
        bad = r.random(n) < (r.choice([0, .3]))
        style = str(r.choice(['masked', 'nan'])) if bad.any() else 'plain'
        if style == 'masked':
            vals = np.ma.masked_array(vals, mask=bad)
        elif style == 'nan' and route in ('box', 'constraint'):
            vals[bad] = np.nan
        else:
            bad[:] = False
        variables.append(ungridded({k: pos[k].copy() for k in data_names}, vals, 'v%d' % v, 'K'))
        valid.append(~bad)
    if not all(ok.any() for ok in valid):
        return
    from cis.data_io.ungridded_data import UngriddedDataList
    data = variables[0] if nvar == 1 else UngriddedDataList(variables)
    size = int(r.choice([1, 1, 2, 3]))
    kind = str(r.choice(['plain', 'gives up', 'nan', 'zero']))
    style = 'values' if route in ('box', 'box_grid', 'bin', 'aggregate') and r.random() < 0.4 else 'point'
    kernel = K[style](size, answer(kind, size))
    missing = bool(r.random() < 0.5)
    gridded = route in ('box_grid', 'bin', 'constraint_grid', 'cells', 'indices')
    order = [str(k) for k in r.permutation(names)]
    t.describe('%s %s kernel (%s) %d outputs, n=%d, %s %s, sample %s, data %s, %d variables, missing=%s, lon %+g' % (
        route, style, kind, size, n, profile, shape, order, data_names, nvar, missing, shift))

    # the sample, and which cell each of its points is
    lost = np.zeros(ncell, bool)
    kw = {}
    if route in ('box', 'constraint'):
        at = r.permutation(ncell)
        sc = {k: np.array([centres[k][cells[g][names.index(k)]] for g in at]) for k in order}
        sv = np.zeros(ncell)
        if r.random() < 0.5:
            gap = r.random(ncell) < 0.4
            sv = np.ma.masked_array(sv, mask=gap)
            if missing:
                lost[at[gap]] = True
        sample = ungridded(sc, sv, 's')
        out_shape = (ncell,)
        out_cells = list(at)
    elif gridded:
        dims = [shape[names.index(k)] for k in order]
        gap = np.zeros(dims, bool)
        if r.random() < 0.6:
            gap = r.random(dims) < 0.4
        sv = np.ma.masked_array(np.zeros(dims), mask=gap) if gap.any() or r.random() < 0.5 else np.zeros(dims)
        sample = gen.cube([dict(kind=k, points=centres[k],
                                bounds=np.stack([centres[k] - STEP[k] / 2, centres[k] + STEP[k] / 2], 1)) for k in order],
                          sv, bounds=bool(r.random() < 0.8) or min(shape) < 2)
        out_cells = [None] * ncell
        for ix in np.ndindex(*dims):
            c = np.ravel_multi_index([ix[order.index(k)] for k in names], shape)
            out_cells[np.ravel_multi_index(ix, dims)] = c
            if missing and gap[ix]:
                lost[c] = True
        out_shape = tuple(dims)
        if order != names:
            t.mark('transposed_sample')
    else:
        for k in names:
            kw[k] = [centres[k][0] - STEP[k] / 2, centres[k][-1] + STEP[k] / 2, STEP[k]]
        out_shape = tuple(shape[names.index(k)] if k in names else 1 for k in data_names)
        dims = [k for k in data_names if k in names]
        out_cells = [None] * ncell
        for ix in np.ndindex(*[shape[names.index(k)] for k in dims]):
            out_cells[np.ravel_multi_index(ix, [shape[names.index(k)] for k in dims])] = \
                np.ravel_multi_index([ix[dims.index(k)] for k in names], shape)

    constraint = None
    if route in ('box', 'box_grid'):
        kw['h_sep'] = 200
        for k in third:
            kw[SEP[k][0]] = SEP[k][1]
        out = data.collocated_onto(sample, how='box', kernel=kernel, missing_data_for_missing_sample=missing, **kw)
    elif route == 'bin':
        out = data.collocated_onto(sample, how='bin', kernel=kernel, missing_data_for_missing_sample=missing)
    elif route == 'aggregate':
        out = data.aggregate(how=kernel, **kw)
    else:
        from cis.collocation import col_implementations as ci
        from cis.collocation.col import collocate
        which = {'cells': 'cells', 'indices': 'indices'}.get(route) or str(r.choice(['points', 'any']))
        constraint = K[which](names)
        col = (ci.GeneralGriddedCollocator if gridded else ci.GeneralUngriddedCollocator)(
            missing_data_for_missing_sample=missing)
        out = collocate(data, sample, col, constraint, kernel)
    outs = gen.as_list(out)
    judge(t, route, style, kind, size, nvar, names, cells, centres, group, pos, valid, lost, ncell, kernel, constraint,
          outs, out_shape, out_cells, variables)
    t.seen(route, style, kind, size, tuple(order), tuple(data_names), profile, missing, bool(lost.any()), nvar,
           tuple(bool((~ok).any()) for ok in valid))


def judge(t, route, style, kind, size, nvar, names, cells, centres, group, pos, valid, lost, ncell, kernel, constraint,
          outs, out_shape, out_cells, variables):
    if not t.check(len(outs) == nvar * size, 'output-count', lambda: '%s: %d' % (t.desc, len(outs))):
        return
    if size > 1:
        t.mark('several_outputs')
    place = {c: {k: float(centres[k][cells[c][a]]) for a, k in enumerate(names)} for c in range(ncell)}
    visited_only = route in ('bin', 'aggregate')          # cells without points aren't visited
    log = list(kernel.log)
    ccalls = list(constraint.calls) if constraint is not None else None
    used = {}
    for v in range(nvar):
        members = {c: np.flatnonzero((group == c) & valid[v]) for c in range(ncell)}
        if route == 'indices':
            expected_indices(t, v, lost, ncell, ccalls, kernel, outs, size, valid[v], log, out_shape, place, names, cells)
            return
        todo = [c for c in range(ncell) if not lost[c] and not (visited_only and len(members[c]) == 0)]
        t.mark('samples_skipped', int(lost.sum()))
        if constraint is not None:
            # one call for each sample point
            mine, ccalls = ccalls[:len(todo)], ccalls[len(todo):]
            t.mark('constraint_calls', len(mine))
            seen = match(t, mine, todo, place, 'constraint')
            if seen is None:
                return
        calls = [c for c in todo if style == 'point' or len(members[c])]
        mine, log = log[:len(calls)], log[len(calls):]
        t.mark('kernel_calls', len(mine))
        if v:
            t.mark('later_variable')
        if style == 'values':
            t.mark('data_only_calls', len(mine))
            got = sorted(tuple(sorted(x for _, x in rows_)) for _, rows_ in mine)
            want = sorted(tuple(members[c] + 1000.) for c in calls)
            t.check(got == want, 'kernel-values', lambda: '%s variable %d: got %s want %s' % (t.desc, v, got, want))
            t.check(not any(len(g) == 0 for g in got), 'data-only-kernel-without-values', t.desc)
        else:
            found = match(t, [p for p, _ in mine], calls, place, 'kernel')
            if found is None:
                return
            for c, (p, pts) in zip(found, mine):
                t.mark('points_handed_over', len(pts))
                if not pts:
                    t.mark('empty_constraint_calls')
                ids = sorted(int(round(x - 1000)) for _, x in pts)
                if not t.check(ids == sorted(members[c].tolist()), 'kernel-points',
                               lambda: '%s variable %d sample %s: got points %s want %s' %
                               (t.desc, v, place[c], ids, members[c].tolist())):
                    continue
                for q, x in pts:
                    i = int(round(x - 1000))
                    want = {k: float(pos[k][i]) for k in pos}
                    t.check(same_place(q, want), 'kernel-point-position',
                            lambda: '%s: value %s at %s, is at %s' % (t.desc, x, q, want))
        # and the answers are where they belong
        for j in range(size):
            o = outs[v * size + j]
            details = kernel.get_variable_details('v%d' % v, 'v%d long' % v, None, 'K')[j]
            t.check((o.var_name, o.long_name, str(o.units)) == (details[0], details[1], details[3]), 'output-details',
                    lambda: '%s: %s want %s' % (t.desc, (o.var_name, o.long_name, o.units), details))
            got = gen.nanmask(o.data)
            if not t.check(got.shape == out_shape, 'output-shape', lambda: '%s: %s want %s' % (t.desc, got.shape, out_shape)):
                continue
            gm, gd = np.ma.getmaskarray(got).ravel(), np.asarray(got.data).ravel()
            for i, c in enumerate(out_cells):
                want = None
                if c in calls:
                    try:
                        want = kernel.value(members[c] + 1000.)
                    except ValueError:
                        t.mark('kernel_gave_up')
                    if want is not None:
                        want = want if size == 1 else want[j]
                        if np.isnan(want):
                            t.mark('kernel_returned_nan')
                            want = None
                where = lambda: '%s variable %d output %d at %s: got %r masked=%s want %r' % (
                    t.desc, v, j, place[c], gd[i], gm[i], want)
                if want is None:
                    t.check(gm[i], 'value-where-missing', where)
                else:
                    t.check(not gm[i] and gd[i] == want, 'answer-misplaced', where)
                    if want == 0:
                        t.mark('answers_zero')
    t.check(not log, 'extra-kernel-calls', lambda: '%s: %d more' % (t.desc, len(log)))
    t.check(not ccalls, 'extra-constraint-calls', lambda: '%s: %d more' % (t.desc, len(ccalls)))


def match(t, positions, todo, place, who):
    """The sample point (number of the cell) each of the calls was for; there must be one for each of them."""
    found = []
    for p in positions:
        f = [c for c in todo if all(k in p for k in place[c]) and same_place({k: p[k] for k in place[c]}, place[c])]
        if not t.check(len(f) == 1, who + '-called-with-another-point', lambda: '%s: %s' % (t.desc, p)):
            return None
        found.append(f[0])
    if not t.check(sorted(found) == sorted(todo), who + '-not-called-once-for-each-sample',
                   lambda: '%s: %s want %s' % (t.desc, sorted(found), sorted(todo))):
        return None
    return found


def expected_indices(t, v, lost, ncell, ccalls, kernel, outs, size, ok, log, out_shape, place, names, cells):
    """A constraint on indices: it is called once for each sample point, and what it hands over goes to the kernel with
    the point at these indices."""
    todo = [c for c in range(ncell) if not lost[c]]
    mine = ccalls[:len(todo)]
    t.mark('constraint_calls', len(mine))
    t.mark('samples_skipped', int(lost.sum()))
    t.check(len(set(mine)) == len(todo), 'indices-not-once-each', lambda: '%s: %s' % (t.desc, mine))
    calls = log[:len(todo)]
    t.mark('kernel_calls', len(calls))
    found = match(t, [p for p, _ in calls], todo, place, 'kernel')
    if found is None:
        return
    ids = np.flatnonzero(ok)
    for j in range(size):
        got = gen.nanmask(outs[j].data)
        if not t.check(got.shape == out_shape, 'output-shape', lambda: '%s: %s want %s' % (t.desc, got.shape, out_shape)):
            return
        coords = [(k, outs[j].coord(k).points) for k in names]
        dims = [outs[j].coord_dims(k)[0] for k in names]
        called = set()
        for n, c in enumerate(found):
            called.add(c)
            ix = [None] * len(dims)
            for a, d in enumerate(dims):
                ix[d] = int(np.argmin(np.abs((coords[a][1] - place[c][coords[a][0]] + 180) % 360 - 180
                                             if coords[a][0] == 'longitude' else coords[a][1] - place[c][coords[a][0]])))
            # the points are handed out in the order of the calls
            pts = [x for _, x in calls[n][1]]
            t.mark('points_handed_over', len(pts))
            if not t.check(len(pts) == 1 and int(round(pts[0] - 1000)) in ids, 'kernel-points', lambda: '%s: %s' % (t.desc, pts)):
                return
            try:
                want = kernel.value(pts)
                want = want if size == 1 else want[j]
            except ValueError:
                want = np.nan
            g = got[tuple(ix)]
            if np.isnan(want):
                t.check(g is np.ma.masked, 'value-where-missing', t.desc)
            else:
                t.check(g is not np.ma.masked and g == want, 'answer-misplaced',
                        lambda: '%s: %r want %r at %s' % (t.desc, g, want, place[c]))
        n_missing = int(np.ma.getmaskarray(got).sum())
        if kind_of(kernel) in ('plain', 'zero'):
            t.check(n_missing == ncell - len(called), 'value-where-missing', lambda: '%s: %d' % (t.desc, n_missing))


def kind_of(kernel):
    try:
        x = kernel.value([1000.])
    except ValueError:
        return 'gives up'
    return 'nan' if np.isnan(np.atleast_1d(x)[0]) else 'plain'
