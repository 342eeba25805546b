"""C19: comparison statistics against their definitions over the jointly valid points (exact sums)."""
import math
from fractions import Fraction
import numpy as np
from vmon import gen, snap

CASES = {'quick': 7000, 'thorough': 60000}
RULE = 'one observation per distinct (kinds, types, shapes and missing points of the pair, correlation style, order given) with every statistic recomputed from its definition'
REQUIRED = {'pairs': 1000, 'statistics': 20000, 'excluded_points': 5000, 'integers': 200, 'swapped': 500, 'junk_under_mask': 300, 'relative': 300, 'ties': 140, 'reshaped': 25,
            'gridded': 200, 'far': 40, 'ungridded': 200, 'cubes': 1000}
ASSUMPTIONS = ['NaN which is not masked is not a missing value', 'relative differences are not judged where a valid point of the first dataset is zero',
               'the standard error reported is that of the gradient (as the repository\'s own tests have it)',
               'for fewer than three joint points, or constant data, a refusal is accepted']
NAMES = ['num_points', 'mean1', 'mean2', 'std1', 'std2', 'abs_mean', 'abs_stddev', 'rel_mean', 'rel_stddev', 'spearman', 'grad', 'intercept', 'r', 'stderr']


def mean(x):
    return sum(x, Fraction(0)) / len(x)


def var(x):
    m = mean(x)
    return sum((v - m) ** 2 for v in x) / (len(x) - 1)


def root(f):
    """square root of a Fraction of any size"""
    if f == 0:
        return 0.0
    n = max(0, (f.denominator.bit_length() - f.numerator.bit_length()) // 2 + 80)
    return float(Fraction(math.isqrt((f.numerator << (2 * n)) // f.denominator), 1 << n))


def ranks(x):
    s = sorted(range(len(x)), key=lambda i: x[i])
    out = [0] * len(x)
    i = 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and x[s[j + 1]] == x[s[i]]:
            j += 1
        for k in range(i, j + 1):
            out[s[k]] = Fraction(i + j + 2, 2)
        i = j + 1
    return out


def pearson2(x, y):
    """(covariance sum, x sum of squares, y sum of squares)"""
    mx, my = mean(x), mean(y)
    return (sum((a - mx) * (b - my) for a, b in zip(x, y)), sum((a - mx) ** 2 for a in x), sum((b - my) ** 2 for b in y))


def corr(x, y):
    c, a, b = pearson2(x, y)
    if a == 0 or b == 0:
        return None
    return math.copysign(root(c * c / (a * b)), c)


def definition(x, y):
    n = len(x)
    out = {'num_points': n}
    if n == 0:
        return out
    out['mean1'], out['mean2'] = float(mean(x)), float(mean(y))
    d = [b - a for a, b in zip(x, y)]
    out['abs_mean'] = float(mean(d))
    if n > 1:
        out['std1'], out['std2'], out['abs_stddev'] = root(var(x)), root(var(y)), root(var(d))
    if all(a != 0 for a in x):
        q = [b / a for a, b in zip(x, d)]
        if max(v.denominator.bit_length() for v in q) * n > 60000:     # keep exact sums affordable
            q = [Fraction(float(v)) for v in q]
        out['rel_mean'] = float(mean(q))
        if n > 1:
            out['rel_stddev'] = root(var(q))
    if n > 2:
        s = corr(ranks(x), ranks(y))
        if s is not None:
            out['spearman'] = s
        c, a, b = pearson2(x, y)
        if a:
            g = c / a
            out['grad'] = float(g)
            out['intercept'] = float(mean(y) - g * mean(x))
            if b:
                r2 = c * c / (a * b)
                out['r'] = math.copysign(root(r2), c)
                out['stderr'] = root((1 - r2) * b / a / (n - 2))
    return out


def array(r, n, dtype, style, other=None):
    dt = np.dtype(dtype)
    if dt.kind in 'iu':
        hi = {1: 100, 2: 20000, 4: 10 ** 6, 8: 10 ** 9}[dt.itemsize] if style != 'extreme' else np.iinfo(dt).max
        lo = 0 if dt.kind == 'u' else -hi
        v = r.integers(lo, hi, n, endpoint=True) if style != 'ties' else r.integers(max(lo, -3), 4, n)
        return v.astype(dt)
    if other is not None and style in ('linear', 'noisy', 'anti'):
        a = float(r.choice([.5, 2., 1., 1.25])) * (-1 if style == 'anti' else 1)
        v = a * other.astype(float) + float(r.integers(-8, 9)) + (0 if style == 'linear' else r.integers(-40, 41, n) / 8.)
    elif style == 'ties':
        v = r.integers(-3, 4, n) / 2.
    elif style == 'offset':
        v = float(r.choice([1000., 273.])) + r.integers(-400, 400, n) / 64.
    elif style == 'far':
        # a small spread a long way from zero, and from each other
        v = float(r.choice([1e6, 1e8, 3e9, -1e8])) + r.integers(-400, 400, n) / 64.
    elif style == 'positive':
        v = r.integers(1, 900, n) / 16.
    elif style == 'skew':
        v = np.round(np.exp(r.uniform(-3, 5, n)), 3)
    else:
        v = r.integers(-4000, 4000, n) / 16.
    return v.astype(dt)


def case(t):
    from cis.stats import StatsAnalyzer
    r = t.rng
    n = int(r.choice([1, 2, 3, 4, 6, 12, 24, 60], p=[.03, .05, .07, .1, .15, .2, .25, .15]))
    gridded = r.random() < .4
    dts = [str(r.choice(['f8', 'f8', 'f8', 'f4', 'i2', 'i4', 'u1', 'i1', 'u2', 'i8'])) for _ in (0, 1)]
    if r.random() < .2:
        dts = [dts[0], dts[0]]
    style = str(r.choice(['plain', 'ties', 'offset', 'positive', 'skew', 'extreme', 'linear', 'noisy', 'anti', 'far']))
    a = array(r, n, dts[0], style)
    b = array(r, n, dts[1], style, a)
    if any(np.dtype(d).kind in 'iu' for d in dts):
        t.mark('integers')
    if style == 'ties':
        t.mark('ties')
    if style == 'far' and dts == ['f8', 'f8']:
        t.mark('far')
    masks = []
    arrs = []
    for v in (a, b):
        k = str(r.choice(['plain', 'nomask', 'some', 'some', 'many']))
        m = np.zeros(n, bool)
        if k in ('some', 'many'):
            m = r.random(n) < (.2 if k == 'some' else .6)
            w = v.copy()
            if r.random() < .6:
                # whatever lies under a mask has no influence
                w[m] = {'f': [np.nan, 9.96921e36, np.inf, -999.][int(r.integers(0, 4))]}.get(v.dtype.kind) if v.dtype.kind == 'f' else np.iinfo(v.dtype).max
                t.mark('junk_under_mask')
            v = np.ma.masked_array(w, mask=m)
        elif k == 'nomask':
            v = np.ma.masked_array(v)
        masks.append(m)
        arrs.append(v)
    shapes = [(n,), (n,)]
    if n % 6 == 0:
        opts = [(n,), (2, n // 2), (3, n // 3), (n // 2, 2)]
        s = opts[int(r.integers(0, 4))]
        shapes = [s, s]
        if not gridded and r.random() < .25:
            shapes = [s, opts[int(r.integers(0, 4))]]
            t.mark('reshaped')
    data = []
    axes = None
    if gridded:
        kinds = ['latitude', 'longitude'][:len(shapes[0])]
        axes = [gen.axis(r, k, m, conv='reg0') for k, m in zip(kinds, shapes[0])]
        if any(len(x['points']) != m for x, m in zip(axes, shapes[0])):
            axes, gridded = None, False
    t.mark('gridded' if gridded else 'ungridded')
    for i, (v, s) in enumerate(zip(arrs, shapes)):
        v = v.reshape(s)
        if r.random() < .2 and len(s) == 2:
            v = v.T.copy().T            # the same values in another memory layout
            t.mark('layout')
        name = 'var%d' % (i + 1)
        if gridded:
            data.append(gen.cube(axes, v, name=name))
        else:
            data.append(gen.ungridded(gen.rand_coords(r, n, ['latitude', 'longitude'])if len(s) == 1 else
                                      {k: x.reshape(s) for k, x in gen.rand_coords(r, n, ['latitude', 'longitude']).items()}, v, name=name))
    swap = r.random() < .4
    if swap:
        data, arrs, masks, a, b = data[::-1], arrs[::-1], masks[::-1], b, a
        t.mark('swapped')
    joint = ~(masks[0] | masks[1])
    t.mark('excluded_points', (~joint).sum())
    x = [Fraction(v.item()) for v in a[joint]]
    y = [Fraction(v.item()) for v in b[joint]]
    want = definition(x, y)
    t.describe('%s %s n=%d joint=%d %s shapes %s %s' % ('gridded' if gridded else 'ungridded', dts, n, len(x), style, shapes, 'swapped' if swap else ''))
    before = [snap.snap(d) for d in data]
    t.mark('pairs')
    degenerate = 'grad' not in want or 'r' not in want
    try:
        with np.errstate(all='ignore'):
            res = StatsAnalyzer(*data).analyze()
    except Exception as e:
        if degenerate:
            t.mark('degenerate_refused')
            t.seen('refused', n, len(x), style)
            try:
                with np.errstate(all='ignore'):
                    an = StatsAnalyzer(*data)
                    res = an.points_count() + an.means() + an.stddevs() + an.abs_mean() + an.abs_stddev() + an.rel_mean() + an.rel_stddev()
            except Exception as e2:
                if len(x):
                    raise e2
                return
        else:
            raise e
    judge(t, res, want, dts, a[joint], b[joint])
    names = ['var1', 'var2'][::-1] if swap else ['var1', 'var2']
    for o in res:
        if type(o).__name__ in ('DatasetMean', 'DatasetStddev'):
            t.check(o.ds_name == names[o.ds_no - 1], 'dataset-name', lambda: '%s: dataset %d named %s' % (t.desc, o.ds_no, o.ds_name))
    for i, d in enumerate(data):
        dd = snap.diff(before[i], snap.snap(d))
        t.check(dd is None, 'input-changed', lambda: '%s: %s' % (t.desc, dd))
    t.seen(t.desc, tuple(masks[0].tolist()), tuple(masks[1].tolist()))


def key_of(o):
    k = type(o).__name__
    return {'PointsCount': 'num_points', 'AbsoluteMean': 'abs_mean', 'AbsoluteStddev': 'abs_stddev', 'RelativeMean': 'rel_mean', 'RelativeStddev': 'rel_stddev',
            'SpearmansRank': 'spearman', 'LinearRegressionGradient': 'grad', 'LinearRegressionIntercept': 'intercept', 'LinearRegressionRValue': 'r',
            'LinearRegressionStderr': 'stderr'}.get(k) or {'DatasetMean': 'mean', 'DatasetStddev': 'std'}[k] + str(o.ds_no)


ATTR = {'mean1': 'mean', 'mean2': 'mean', 'std1': 'stddev', 'std2': 'stddev'}


def judge(t, res, want, dts, a, b):
    single = 'f4' in dts
    eps = 3e-5 if single else 1e-9
    f = lambda v: float(np.max(np.abs(v.astype(float)))) if len(v) else 0.   # noqa
    sa, sb = f(a), f(b)
    sd = np.std(a.astype(float)) if len(a) > 1 else 0.
    minx = float(np.min(np.abs(a.astype(float)))) if len(a) else 0.
    rel = (sa + sb) / minx if minx else 0.
    g = (sb / sd) * max(1., sa / sd) if sd else 0.
    scale = {'mean1': sa, 'std1': sa, 'mean2': sb, 'std2': sb, 'abs_mean': sa + sb, 'abs_stddev': sa + sb, 'rel_mean': rel, 'rel_stddev': rel, 'spearman': 1.,
             'grad': g, 'intercept': sb + g * sa, 'r': max(1., (sa / sd if sd else 1.)), 'stderr': g, 'num_points': 0}
    got = {}
    for o in res:
        k = key_of(o)
        t.check(k not in got, 'reported-twice', lambda: '%s %s' % (t.desc, k))
        got[k] = getattr(o, ATTR.get(k, k))
        if got[k] is None:
            continue
        c = o.as_cube()
        undefined = got[k] is np.ma.masked and (np.ma.is_masked(c.data) or np.isnan(c.data).all())
        t.check(undefined or gen.compatible(np.ma.ravel(c.data)[:1], np.ma.ravel(np.ma.asarray(got[k])), 0, 0) and c.data.size == 1, 'cube-value', lambda: '%s: %s cube holds %s, statistic %s' % (
            t.desc, k, c.data, got[k]))
        t.check(str(got[k]) in o.pprint(), 'printed', lambda: '%s: %s printed as %s' % (t.desc, got[k], o.pprint()))
        t.mark('cubes')
    for k, w in want.items():
        t.mark('statistics')
        if k.startswith('rel'):
            t.mark('relative')
        if k not in got:
            if k in ('spearman', 'grad', 'intercept', 'r', 'stderr') and ('r' not in want or 'grad' not in want):
                continue
            t.fail('missing-' + k, t.desc)
            continue
        v = got[k]
        if k == 'num_points':
            ok = int(v) == w
        elif v is None or v is np.ma.masked:
            ok = False
        else:
            lim = eps * abs(w) + (eps if single or k[:4] not in ('mean', 'std1', 'std2', 'abs_') else 1e-13) * scale[k]
            if k == 'stderr' and 'r' in want:     # cancellation in 1 - r^2
                lim = max(lim, math.sqrt(eps) * scale[k] * 10)
            ok = abs(float(v) - w) <= lim
        t.check(ok, k, lambda: '%s: %s is %r, by definition %r' % (t.desc, k, v, w))
