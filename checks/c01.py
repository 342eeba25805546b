"""C01: box collocation selection.  A recording kernel is run inside the real collocator; every data value is distinct,
so the values it is handed identify the selected points, and the value it returns identifies the sample they were for."""
import numpy as np
from vmon import gen
from vmon.geo import gc_matrix

CASES = {'quick': 1920, 'thorough': 8000}
RULE = ('one observation per distinct (data size class, sample size class, subset of separations used, coordinate set, '
        'geometry, mask kinds, missing-sample setting, how the collocator was reused) whose per-sample selections were '
        'all compared with exhaustive search')
REQUIRED = {'samples_judged': 2000, 'points_selected': 2000, 'samples_skipped_missing': 50, 'reused_collocators': 20}
ASSUMPTIONS = ['pairs within 1 m / 1e-9 relative of a separation are not judged (rounding; the boundary itself is unspecified)']


def make_recorder():
    from cis.collocation.col_framework import AbstractDataOnlyKernel

    class Recorder(AbstractDataOnlyKernel):
        def __init__(self):
            self.calls = []

        def get_value_for_data_only(self, values):
            self.calls.append(np.array(np.asarray(values, dtype=float)))
            return float(len(self.calls) - 1)
    return Recorder()


def cluster_samples(r, dc, m, mode):
    n = len(dc['latitude'])
    sc = {}
    i = r.integers(0, n, m)
    scale = dict(latitude=1.5, longitude=1.5, altitude=500., air_pressure=30., time=0.4)
    fac = 0.0 if mode == 'same' else 1.0
    for k in dc:
        sc[k] = dc[k][i] + r.normal(0, 1, m) * scale[k] * fac
    sc['latitude'] = np.clip(sc['latitude'], -90, 90)
    if 'air_pressure' in sc:
        sc['air_pressure'] = np.abs(sc['air_pressure']) + 1
    return sc


def case(t):
    from cis.collocation import col_implementations as ci
    from cis.data_io.ungridded_data import UngriddedDataList, UngriddedCoordinates
    from cis.data_io.Coord import CoordList
    r = t.rng
    n = int(r.choice([1, 2, 7, 30, 90, 250]))
    m = int(r.choice([1, 3, 12, 30]))
    extra = [k for k in ('altitude', 'air_pressure', 'time') if r.random() < 0.6]
    which = ['latitude', 'longitude'] + extra
    order = list(r.permutation(which))
    dc = gen.rand_coords(r, n, which)
    mode = str(r.choice(['cloud', 'near', 'near', 'same']))
    sc = gen.rand_coords(r, m, which) if mode == 'cloud' else cluster_samples(r, dc, m, mode)
    if mode == 'cloud' and r.random() < 0.5:
        for k in extra:
            sc[k] = r.choice(dc[k], m) + (0 if r.random() < 0.3 else r.normal(0, 1, m) * 0.1)
    # samples and data may use different longitude conventions
    if r.random() < 0.4:
        sc['longitude'] = np.mod(sc['longitude'], 360) if r.random() < 0.5 else np.mod(sc['longitude'] + 180, 360) - 180
    if r.random() < 0.4:
        dc['longitude'] = np.mod(dc['longitude'], 360) if r.random() < 0.5 else np.mod(dc['longitude'] + 180, 360) - 180

    # separations
    kw, lim = {}, {}
    D = gc_matrix(sc['latitude'], sc['longitude'], dc['latitude'], dc['longitude'])
    if r.random() < 0.75:
        h = float(np.quantile(D, r.uniform(0.02, 0.9))) * float(r.uniform(0.9, 1.1)) + 0.01 if r.random() < 0.6 else \
            float(r.choice([0., 1., 50., 500., 3000., 12000., 19950.]))
        h = round(h, 3)
        kw['h_sep'] = [h, '%r' % h, '%rkm' % h, '%rm' % round(h * 1000, 3)][int(r.integers(0, 4))]
        lim['h'] = h
    if 'altitude' in which and r.random() < 0.6:
        a = round(float(r.choice([100., 700., 3000., 9000.]) * r.uniform(0.5, 1.5)), 1)
        kw['a_sep'] = [a, '%r' % a, '%rm' % a, '%rkm' % round(a / 1000, 6)][int(r.integers(0, 4))]
        lim['a'] = a
    if 'air_pressure' in which and r.random() < 0.6:
        p = round(float(1 + r.exponential(0.5)), 4)
        kw['p_sep'] = [p, '%r' % p][int(r.integers(0, 2))]
        lim['p'] = p
    if 'time' in which and r.random() < 0.6:
        mins = int(r.choice([10, 90, 600, 1500, 3000]))
        kw['t_sep'] = ['PT%dM' % mins, 'P%dDT%dH%dM' % (mins // 1440, mins % 1440 // 60, mins % 60),
                       'PT%dS' % (mins * 60)][int(r.integers(0, 3))]
        lim['t'] = mins / 1440.0

    sep = np.ones((m, n), bool)
    edge = np.zeros((m, n), bool)

    def apply(x, limit, tol):
        nonlocal sep, edge
        sep &= x < limit
        edge |= np.abs(x - limit) < tol
    if 'h' in lim:
        apply(D, lim['h'], 1e-3)
    if 'a' in lim:
        apply(np.abs(sc['altitude'][:, None] - dc['altitude'][None, :]), lim['a'], 1e-6)
    if 'p' in lim:
        a, b = sc['air_pressure'][:, None], dc['air_pressure'][None, :]
        apply(np.maximum(a / b, b / a), lim['p'], 1e-9)
    if 't' in lim:
        apply(np.abs(sc['time'][:, None] - dc['time'][None, :]), lim['t'], 1e-6)

    # data variables: distinct values, several masks
    nvars = int(r.choice([1, 1, 2, 3]))
    variables, valid = [], []
    for v in range(nvars):
        vals = 1000.0 * (v + 1) + np.arange(n)
        bad = np.zeros(n, bool)
        kind = str(r.choice(['none', 'masked', 'nan', 'nomask']))
        if kind != 'none' and kind != 'nomask':
            bad = r.random(n) < r.choice([0.15, 0.5])
        if kind == 'masked':
            vals = np.ma.masked_array(np.where(bad, 1e20, vals), mask=bad)
        elif kind == 'nan':
            vals = np.where(bad, np.nan, vals)
        elif kind == 'nomask':
            vals = np.ma.masked_array(vals)
        d = gen.ungridded({k: dc[k].copy() for k in order}, vals, 'v%d' % v)
        variables.append(d)
        valid.append(~bad)
    two_d = n % 2 == 0 and n > 2 and r.random() < 0.2
    if two_d:
        variables = [gen.ungridded({k: dc[k].reshape(2, -1).copy() for k in order}, d.data.reshape(2, -1).copy(), d.var_name)
                     for d in variables]

    # sample
    smiss = np.zeros(m, bool)
    skind = str(r.choice(['plain', 'masked', 'nan', 'coords']))
    if skind in ('masked', 'nan'):
        smiss = r.random(m) < 0.4
    sorder = list(r.permutation(which))
    if skind == 'coords':
        def mk_sample():
            return UngriddedCoordinates(CoordList([gen.coord(k, sc[k].copy()) for k in sorder]))
    else:
        def mk_sample():
            sv = np.arange(m) * 1.0
            if skind == 'masked':
                sv = np.ma.masked_array(sv, mask=smiss.copy())
            elif skind == 'nan':
                sv = np.where(smiss, np.nan, sv)
            return gen.ungridded({k: sc[k].copy() for k in sorder}, sv, 's')
    skip = bool(r.random() < 0.6)
    t.describe(dict(n=n, m=m, vars=nvars, coords=order, sep={k: str(v) for k, v in kw.items()}, mode=mode, sample=skind, skip_missing=skip))

    def judge(outputs, rec, vs, how):
        if not t.check(len(outputs) == len(vs), 'output-count', '%s: %d outputs for %d variables' % (how, len(outputs), len(vs))):
            return
        used = []
        for out, v in zip(outputs, vs):
            got = np.ma.asarray(out.data)
            gm = np.ma.getmaskarray(got)
            if not t.check(got.shape == (m,), 'output-shape', '%s %s' % (how, got.shape)):
                return
            t.check(out.var_name == 'v%d' % v, 'output-variable', '%s %s' % (how, out.var_name))
            for k in which:
                c = np.asarray(out.coord(standard_name=k).data, float)
                diff = np.abs(c - sc[k])
                if k == 'longitude':
                    diff = np.minimum(np.mod(diff, 360), 360 - np.mod(diff, 360))
                t.check(c.shape == (m,) and bool((diff < 1e-9).all()), 'output-coordinates', '%s %s' % (how, k))
            for j in range(m):
                if smiss[j] and skip:
                    t.mark('samples_skipped_missing')
                    t.check(gm[j], 'missing-sample-not-skipped', '%s sample %d' % (how, j))
                    continue
                must = set((1000.0 * (v + 1) + np.nonzero(sep[j] & valid[v] & ~edge[j])[0]).tolist())
                may = set((1000.0 * (v + 1) + np.nonzero((sep[j] | edge[j]) & valid[v])[0]).tolist())
                t.mark('samples_judged')
                if gm[j]:
                    t.check(not must, 'no-selection', lambda: '%s sample %d missing but %d points within' % (how, j, len(must)))
                    continue
                call = int(got[j])
                used.append(call)
                sel = rec.calls[call].tolist()
                t.mark('points_selected', len(sel))
                t.check(len(sel) == len(set(sel)), 'point-selected-twice', '%s sample %d' % (how, j))
                t.check(must <= set(sel), 'point-missed', lambda: '%s sample %d missed %s (limits %s)' % (
                    how, j, sorted(must - set(sel))[:5], lim))
                t.check(set(sel) <= may, 'point-outside-box', lambda: '%s sample %d extra %s (limits %s)' % (
                    how, j, sorted(set(sel) - may)[:5], lim))
        t.check(len(used) == len(set(used)), 'selection-shared-between-samples', how)

    style = str(r.choice(['method', 'list', 'reuse', 'framework', 'only']))
    if style == 'method' or (style == 'list' and nvars == 1):
        rec = make_recorder()
        out = variables[0].collocated_onto(mk_sample(), how=str(r.choice(['', 'box'])), kernel=rec,
                                           missing_data_for_missing_sample=skip, **kw)
        judge(out, rec, [0], style)
    elif style == 'list':
        rec = make_recorder()
        out = UngriddedDataList(variables).collocated_onto(mk_sample(), how='box', kernel=rec,
                                                           missing_data_for_missing_sample=skip, **kw)
        judge(out, rec, list(range(nvars)), style)
    elif style == 'only':
        # the horizontal-only shortcut picks a single nearest point and must skip the same samples
        out = variables[0].collocated_onto(mk_sample(), how='box', kernel='nn_horizontal_only',
                                           missing_data_for_missing_sample=skip, h_sep=1)
        got = np.ma.asarray(out[0].data)
        gm = np.ma.getmaskarray(got)
        if t.check(got.shape == (m,), 'output-shape', 'nn_horizontal_only %s' % (got.shape,)):
            for j in range(m):
                if smiss[j] and skip:
                    t.mark('samples_skipped_missing')
                    t.check(gm[j], 'missing-sample-not-skipped', 'nn_horizontal_only sample %d' % j)
                elif not valid[0].any():
                    t.check(gm[j], 'value-from-nothing', 'nn_horizontal_only sample %d' % j)
                else:
                    t.mark('samples_judged')
                    i = -1 if gm[j] else int(round(float(got[j]))) - 1000
                    t.check(0 <= i < n and valid[0][i] and D[j][i] <= D[j][valid[0]].min() + 1e-3,
                            'horizontal-only-not-nearest', 'sample %d got %s' % (j, got[j]))
    elif style == 'reuse':
        # one collocator and constraint used again and again, for different variables and samples
        con = ci.SepConstraintKdtree(**kw)
        col = ci.GeneralUngriddedCollocator(missing_data_for_missing_sample=skip)
        t.mark('reused_collocators')
        for rep, v in enumerate(list(r.permutation(nvars)) + [0]):
            rec = make_recorder()
            out = col.collocate(mk_sample(), variables[int(v)], con, rec)
            judge(out, rec, [int(v)], 'reuse %d' % rep)
    else:
        # the building blocks: Constraint.constrain_points on a table of points
        con = ci.SepConstraintKdtree(**kw)
        from cis.collocation import data_index
        s, d = mk_sample(), variables[0]
        dp = d.as_data_frame(time_index=False, name='vals').dropna(axis=0)
        sp = s.as_data_frame(time_index=False, name='vals')
        if len(dp):
            data_index.create_indexes(con, s, dp, None)
            for rep in range(2):
                for j in range(m):
                    sel = [float(x) for x in con.constrain_points(sp.iloc[j], dp).vals]
                    must = set((1000.0 + np.nonzero(sep[j] & valid[0] & ~edge[j])[0]).tolist())
                    may = set((1000.0 + np.nonzero((sep[j] | edge[j]) & valid[0])[0]).tolist())
                    t.mark('samples_judged')
                    t.mark('points_selected', len(sel))
                    t.check(len(sel) == len(set(sel)) and must <= set(sel) <= may, 'constraint-selection',
                            lambda: 'pass %d sample %d: missed %s extra %s limits %s' % (
                                rep, j, sorted(must - set(sel))[:5], sorted(set(sel) - may)[:5], lim))
    t.seen(n, m, tuple(sorted(lim)), tuple(sorted(extra)), mode, skind, skip, style, nvars, two_d)
