"""C17: dates and durations as documented: partial dates span their period, durations add up, malformed ones are refused."""
import contextlib
import datetime as D
import io
import numpy as np
from vmon import gen

CASES = {'quick': 8000, 'thorough': 60000}
RULE = 'one observation per distinct date, duration, limit or grid string (or set of them) whose meaning was compared with calendar arithmetic'
REQUIRED = {'partial': 100, 'limits': 200, 'grid': 100, 'duration': 200, 'malformed-date': 200, 'malformed-duration': 100, 'subset': 100,
            'leap': 20, 'number': 60, 'aggregate': 60, 'period-end': 200}
ASSUMPTIONS = ['a month in a duration counts 30 days and a year 365 days (the manual speaks of calendar months, see DESIGN.md)',
               'the last instant of a period is its last whole second']


class ParserError(Exception):
    pass


class Parser(object):
    def error(self, msg):
        raise ParserError(msg)


def period(c):
    """first instant of the period given by components, and first instant after it"""
    full = list(c) + [1, 1, 1, 0, 0, 0][len(c):]
    a = D.datetime(*full)
    n = len(c)
    if n == 1:
        b = D.datetime(c[0] + 1, 1, 1)
    elif n == 2:
        b = D.datetime(c[0] + (c[1] == 12), c[1] % 12 + 1, 1)
    else:
        b = a + [D.timedelta(days=1), D.timedelta(hours=1), D.timedelta(minutes=1), D.timedelta(seconds=1)][n - 3]
    return a, b


def rand_comp(r, n=None, year=None):
    n = n or int(r.integers(1, 7))
    d = D.datetime(1601, 1, 1) + D.timedelta(seconds=int(r.integers(0, 18900000000)))
    y, m, day = d.year, d.month, d.day
    if r.random() < 0.4:
        y = int(r.choice([1700, 1900, 1999, 2000, 2004, 2008, 2011, 2100]))
    y = year or y
    k = r.random()
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if k < 0.25:
        m, day = 2, (29 if leap else 28)
    elif k < 0.4:
        m, day = 12, 31
    elif k < 0.5:
        m, day = int(r.choice([4, 6, 9, 11])), 30
    elif m == 2 and day == 29 and not leap:
        day = 28
    h, mi, s = d.hour, d.minute, d.second
    if r.random() < 0.3:
        h, mi, s = [(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 59, 0)][int(r.integers(0, 4))]
    return [y, m, day, h, mi, s][:n]


def text(r, c, seps='T :', zeros=None):
    z = (r.random() < 0.75) if zeros is None else zeros
    f = (lambda v: '%02d' % v) if z else (lambda v: '%d' % v)
    s = '-'.join(['%04d' % c[0]] + [f(v) for v in c[1:3]])
    if len(c) > 3:
        s += str(r.choice(list(seps))) + ':'.join(f(v) for v in c[3:])
    return s


def case(t):
    k = ['partial', 'limits', 'grid', 'duration', 'bad_date', 'bad_duration', 'subset', 'number', 'aggregate', 'limits', 'duration', 'bad_date'][t.index % 12]
    globals()['c_' + k](t, t.rng)
    t.seen(t.desc)


def in_period(t, lo, hi, c, mech):
    a, b = period(c)
    t.check(lo == a, mech + '-start', lambda: '%s: starts %s not %s' % (t.desc, lo, a))
    t.check(b - D.timedelta(seconds=1) <= hi < b, mech + '-end', lambda: '%s: ends %s, period ends before %s' % (t.desc, hi, b))
    t.mark('period-end')
    if len(c) > 1 and c[1] == 2:
        t.mark('leap')


def c_partial(t, r):
    from cis.parse_datetime import parse_partial_datetime, parse_datetimestr_to_std_time, parse_as_number_or_standard_time
    from cis.time_util import PartialDateTime
    c = rand_comp(r)
    s = text(r, c)
    t.describe('partial %r' % s)
    p = parse_partial_datetime(s, 'date', Parser())
    in_period(t, p.min(), p.max(), c, 'partial')
    q = PartialDateTime(*c)
    in_period(t, q.range()[0], q.range()[1], c, 'partial-range')
    t.check(p == q, 'partial-equal', t.desc)
    other = rand_comp(r)
    t.check((PartialDateTime(*other) == q) == (other == c), 'partial-unequal', lambda: '%s %s' % (t.desc, other))
    if len(c) >= 3:
        w = (period(c)[0] - D.datetime(1600, 1, 1)).total_seconds() / 86400.
        if len(c) != 4:
            s2 = text(r, c, 'T ', True)
            t.check(abs(parse_datetimestr_to_std_time(s2) - w) < 2e-10, 'std-time', lambda: s2)
        t.check(abs(float(parse_as_number_or_standard_time(s)) - w) < 2e-10, 'number-or-std-time', lambda: s)
    bad = list(c) + [None] * (6 - len(c))
    i = int(r.integers(0, 5))
    if bad[i] is not None and bad[i + 1] is not None and i > 0:
        bad[i] = None
        try:
            PartialDateTime(*bad)
            t.fail('partial-gap', '%s' % bad)
        except ValueError:
            t.mark('gap')
    t.mark('partial')


def rand_number(r):
    k = int(r.integers(0, 4))
    if k == 0:
        return '%d' % int(r.integers(-400, 400))
    if k == 1:
        return repr(round(float(r.uniform(-1e3, 1e3)), 3))
    if k == 2:
        return '%.3e' % float(r.uniform(-1e5, 1e5))
    return str(r.choice(['.5', '-0.25', '1e3', '+4', '007', '1.']))


def c_limits(t, r):
    from cis.parse import get_subset_limits
    name = str(r.choice(['t', 'time', 'T', 'Time', 'obs_date']))
    c1 = rand_comp(r)
    one = r.random() < 0.3 and name != 'obs_date'
    if one:
        s = text(r, c1)
        line = '%s=[%s]' % (name, s)
    else:
        c2 = rand_comp(r)
        if name == 'obs_date':        # not known to be a time, so a year on its own is a number
            c1, c2 = rand_comp(r, int(r.integers(2, 7))), rand_comp(r, int(r.integers(2, 7)))
        s1, s2 = text(r, c1), text(r, c2)
        k = r.random()
        if k < 0.1:
            s1 = 'None'
        elif k < 0.2:
            s2 = 'None'
        line = '%s=[%s,%s]' % (name, s1, s2)
    extra = ''
    if r.random() < 0.4:
        extra = str(r.choice(['x=[-10,20.5]', 'y=[-1e1,5]', 'z=[0,1000]']))
        line = (line + ',' + extra) if r.random() < 0.5 else (extra + ',' + line)
    t.describe('limits %r' % line)
    out = get_subset_limits(line, Parser())
    t.check(sorted(out) == sorted([name] + ([extra[0]] if extra else [])), 'limit-names', lambda: '%s: %s' % (t.desc, out))
    if extra:
        t.check(list(out[extra[0]]) == [float(v) for v in extra[3:-1].split(',')], 'limit-numbers', lambda: '%s: %s' % (t.desc, out))
    lim = out[name]
    if one:
        lim = lim[0] if isinstance(lim, (list, tuple)) else lim
        in_period(t, lim.min(), lim.max(), c1, 'limit-one')
    else:
        t.check(len(lim) == 2, 'limit-count', t.desc)
        t.check((lim[0] is None) if s1 == 'None' else lim[0] == period(c1)[0], 'limit-start', lambda: '%s: %s' % (t.desc, lim))
        if s2 == 'None':
            t.check(lim[1] is None, 'limit-end-none', lambda: '%s: %s' % (t.desc, lim))
        else:
            b = period(c2)[1]
            t.check(b - D.timedelta(seconds=1) <= lim[1] < b, 'limit-end', lambda: '%s: %s' % (t.desc, lim))
            t.mark('period-end')
    t.mark('limits')


def rand_duration(r, maxu=None):
    """(text, seconds)"""
    units = [('Y', 365 * 86400), ('M', 30 * 86400), ('D', 86400)], [('H', 3600), ('M', 60), ('S', 1)]
    nd = [u for u in units[0] if r.random() < 0.5]
    nt = [u for u in units[1] if r.random() < 0.5]
    if not nd and not nt:
        nd = [units[0][2]]
    if r.random() < 0.25:
        r.shuffle(nd), r.shuffle(nt)
    s, tot = 'P', 0
    for grp, pre in ((nd, ''), (nt, 'T')):
        if grp:
            s += pre
        for u, k in grp:
            v = int(r.choice([0, 1, 2, 3, 10, 30, 90, 365]))
            s += '%d%s' % (v, u)
            tot += v * k
    if r.random() < 0.25:
        s = s.lower()
    return s, tot


def c_duration(t, r):
    from cis.parse_datetime import parse_datetimestr_delta_to_float_days, parse_as_number_or_datetime_delta
    from cis.collocation.col_implementations import SepConstraint, SepConstraintKdtree
    s, tot = rand_duration(r)
    t.describe('duration %r' % s)
    got = parse_datetimestr_delta_to_float_days(s)
    t.check(abs(got - tot / 86400.) <= 1e-12 * max(1, tot), 'duration', lambda: '%s: %r want %r' % (t.desc, got, tot / 86400.))
    d = parse_as_number_or_datetime_delta(s)
    t.check(isinstance(d, D.timedelta) and d.total_seconds() == tot, 'duration-delta', lambda: '%s: %r' % (t.desc, d))
    for cls in (SepConstraint, SepConstraintKdtree):
        t.check(abs(cls(t_sep=s).t_sep - tot / 86400.) <= 1e-12 * max(1, tot), 'duration-constraint', t.desc)
    t.mark('duration')


def raises(f):
    """True if the call refuses its argument the way a command line would report"""
    import argparse
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            v = f()
    except (ValueError, ParserError, argparse.ArgumentTypeError):
        return True, None
    except SystemExit as e:
        return e.code != 0, None
    return False, v


def bad_date(r):
    c = rand_comp(r, 6)
    k = int(r.integers(0, 16))
    y, m, d, h, mi, s = c
    g = lambda n, c=c: text(r, c[:n], 'T:', True)
    if k == 0:
        return text(r, [y, int(r.choice([0, 13, 99]))], zeros=True)
    if k == 1:
        return text(r, [y, m, int(r.choice([0, 32]))], zeros=True)
    if k == 2:
        return '%04d-%02d-31' % (y, int(r.choice([2, 4, 6, 9, 11])))
    if k == 3:
        yy = int(r.choice([1700, 1900, 2001, 2100, 2010]))
        return '%04d-02-29' % yy
    if k == 4:
        return text(r, [y, m, d, int(r.choice([24, 25, 99]))], 'T:')
    if k == 5:
        return text(r, [y, m, d, h, 60], 'T:')
    if k == 6:
        return text(r, [y, m, d, h, mi, int(r.choice([60, 61]))], 'T:')
    if k == 7:
        return g(int(r.choice([1, 2, 3]))) + '-'
    if k == 8:
        return g(3) + 'T'
    if k == 9:
        return g(int(r.choice([4, 5]))) + ':'
    if k == 10:
        return g(int(r.choice([1, 2]))) + 'T%02d' % h
    if k == 11:
        return g(int(r.choice([1, 2]))) + 'T%02d:%02d' % (h, mi)
    if k == 12:
        return g(3) + '-%02d' % int(r.integers(1, 13))
    if k == 13:
        return g(6) + ':%02d' % s
    if k == 14:
        w = g(int(r.integers(1, 7)))
        i = int(r.integers(0, len(w)))
        return w[:i] + str(r.choice(['q', 'X', '#', '_x'])) + w[i:]
    return str(r.choice(['', 'yesterday', 'T12:30', '-2010', 'P1D', '12:30', '--', 'jan', '2010--05', '2010-Q1', 'monday']))


def c_bad_date(t, r):
    from cis.parse import get_subset_limits, get_aggregate_grid
    from cis.parse_datetime import parse_partial_datetime, parse_datetime, parse_as_number_or_datetime
    s = bad_date(r)
    t.describe('malformed date %r' % s)
    good = text(r, rand_comp(r, int(r.integers(2, 7))), 'T:')
    fs = {'partial': lambda: parse_partial_datetime(s, 'x', Parser()), 'datetime': lambda: parse_datetime(s, 'x', Parser()),
          'number': lambda: parse_as_number_or_datetime(s)}
    if s and ',' not in s:
        fs['limit-start'] = lambda: get_subset_limits('t=[%s,%s]' % (s, good), Parser())
        fs['limit-end'] = lambda: get_subset_limits('time=[%s,%s]' % (good, s), Parser())
        fs['limit-one'] = lambda: get_subset_limits('t=[%s]' % s, Parser())
        fs['grid-start'] = lambda: get_aggregate_grid('t=[%s,%s,P1D]' % (s, good), Parser())
        fs['grid-end'] = lambda: get_aggregate_grid('t=[%s,%s,P1D]' % (good, s), Parser())
    for k, f in fs.items():
        ok, v = raises(f)
        if k in ('number', 'grid-start', 'grid-end') and not ok:
            try:
                float(s)
                continue                   # it is a number
            except ValueError:
                pass
        t.check(ok, 'malformed-date-' + k, lambda: '%s accepted as %r' % (t.desc, v))
    t.mark('malformed-date')


def bad_duration(r):
    s, _ = rand_duration(r)
    k = int(r.integers(0, 9))
    if k == 0:
        return s[1:]
    if k == 1:
        return s + str(r.choice(['5', '12', 'X', 'Q', '1W']))
    if k == 2:
        i = int(r.choice([i for i, c in enumerate(s) if c.isdigit()]))
        return s[:i] + str(r.choice(['-', '.', '+'])) + s[i:]
    if k == 3:
        return str(r.choice(['P5H', 'P1D2H', 'PT1D', 'PT2Y', 'P3S', 'PT1DT2H']))
    if k == 4:
        return str(r.choice(['PD', 'PTH', 'PY2M3', 'P1DTM', 'PY2M3DT4H5M6S']))
    if k == 5:
        return str(r.choice(['P', 'PT', 'P1', 'PT30', '', 'T1H', '1M']))
    if k == 6:
        return 'P1.5D' if r.random() < 0.5 else 'PT0.5H'
    if k == 7:
        return str(r.choice(['P1W', 'P1F', 'PT5X', 'one day', 'P1D!', 'P#D']))
    return 'P-%dD' % int(r.integers(1, 9))


def c_bad_duration(t, r):
    from cis.parse import get_aggregate_grid
    from cis.parse_datetime import parse_datetimestr_delta_to_float_days, parse_as_number_or_datetime_delta
    s = bad_duration(r)
    t.describe('malformed duration %r' % s)
    ok, v = raises(lambda: parse_datetimestr_delta_to_float_days(s))
    t.check(ok, 'malformed-duration', lambda: '%s accepted as %r' % (t.desc, v))
    ok, v = raises(lambda: parse_as_number_or_datetime_delta(s))
    t.check(ok, 'malformed-duration-number', lambda: '%s accepted as %r' % (t.desc, v))
    if s:
        ok, v = raises(lambda: get_aggregate_grid('t=[2010-01-01,2010-02-01,%s]' % s, Parser()))
        t.check(ok, 'malformed-duration-grid', lambda: '%s accepted as %r' % (t.desc, v))
    t.mark('malformed-duration')


def c_number(t, r):
    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta, parse_as_number_or_standard_time
    s = rand_number(r)
    t.describe('number %r' % s)
    for f in (parse_as_number_or_datetime, parse_as_number_or_datetime_delta, parse_as_number_or_standard_time):
        v = f(s)
        t.check(isinstance(v, (int, float)) and v == float(s), 'number', lambda: '%s: %r' % (t.desc, v))
        if s.lstrip('+-').isdigit():
            t.check(isinstance(v, int), 'number-int', t.desc)
    t.check(parse_as_number_or_datetime('None') is None, 'none', t.desc)
    c = rand_comp(r, 6)
    us = int(r.choice([0, 1, 500000, 123456, 999999]))
    s = '%s.%06d' % (text(r, c), us)
    w = period(c)[0] + D.timedelta(microseconds=us)
    t.check(parse_as_number_or_datetime(s) == w, 'fraction', s)
    t.mark('number')


def grid_case(r):
    y = int(r.integers(1970, 2090))
    n1, n2 = int(r.integers(1, 7)), int(r.integers(1, 7))
    c1 = rand_comp(r, n1, y)
    c2 = rand_comp(r, n2, y)
    return c1, c2


def c_grid(t, r):
    from cis.parse import get_aggregate_grid
    c1, c2 = grid_case(r)
    name = str(r.choice(['t', 'time', 'T']))
    s, tot = rand_duration(r)
    other = str(r.choice(['', 'x', 'x=[-180,180,10]', 'y=[-90.5,90,2.5]']))
    line = '%s=[%s,%s,%s]' % (name, text(r, c1), text(r, c2), s)
    line = line + ',' + other if other else line
    t.describe('grid %r' % line)
    out = get_aggregate_grid(line, Parser())
    g = out[name]
    t.check(g.start == period(c1)[0], 'grid-start', lambda: '%s: %s' % (t.desc, g))
    b = period(c2)[1]
    t.check(b - D.timedelta(seconds=1) <= g.stop < b, 'grid-end', lambda: '%s: %s' % (t.desc, g))
    t.mark('period-end')
    t.check(isinstance(g.step, D.timedelta) and g.step.total_seconds() == tot, 'grid-step', lambda: '%s: %s' % (t.desc, g))
    if other:
        w = None if '=' not in other else [float(v) for v in other[3:-1].split(',')]
        got = out[other[0]]
        t.check(got is None if w is None else [got.start, got.stop, got.step] == w, 'grid-other', lambda: '%s: %s' % (t.desc, out))
    t.check(len(out) == 1 + bool(other), 'grid-names', lambda: '%s: %s' % (t.desc, out))
    t.mark('grid')


def boundary_times(r, lo, hi):
    """instants around the first and the last instant of a range, and elsewhere"""
    out = []
    for b in (lo, hi):
        for k in (-86400, -61, -1, 0, 1, 59, 3600):
            if r.random() < 0.7:
                out.append(b + D.timedelta(seconds=k))
    span = (hi - lo).total_seconds()
    for _ in range(int(r.integers(1, 8))):
        out.append(lo + D.timedelta(seconds=int(r.uniform(-0.5, 1.5) * max(span, 10))))
    return sorted(set(out))


def c_subset(t, r):
    from cis.time_util import PartialDateTime
    from cis.parse import get_subset_limits
    from cf_units import Unit
    c = rand_comp(r)
    style = str(r.choice(['pdt', 'list', 'cli-one', 'cli-two', 'datetimes']))
    c2 = c
    if style in ('cli-two', 'datetimes'):
        c2 = rand_comp(r, None, c[0])
        if period(c2)[1] <= period(c)[0]:
            c, c2 = c2, c
    lo, hi = period(c)[0], period(c2)[1] - D.timedelta(seconds=1)
    if hi < lo:
        hi = lo
        c2 = c = rand_comp(r, 6)
        lo = hi = period(c)[0]
    ts = boundary_times(r, lo, hi)
    ts = [x for x in ts if D.datetime(1600, 1, 1) <= x]
    gridded = r.random() < 0.4 and len(ts) > 1
    t.describe('subset %s %s %s gridded=%s n=%d' % (style, c, c2, gridded, len(ts)))
    tv = Unit(gen.TUNIT, calendar='gregorian').date2num(ts).astype(float)
    v = np.arange(len(ts)) + 1.
    if gridded:
        ax = dict(kind='time', points=tv, bounds=None)
        d = gen.cube([ax, gen.axis(r, 'latitude', 2, bounds=False)], np.stack([v, v], 1), bounds=False)
    else:
        p = r.permutation(len(ts))
        d = gen.ungridded({'latitude': r.uniform(-9, 9, len(ts)), 'longitude': r.uniform(0, 9, len(ts)), 'time': tv[p]}, v[p])
    key = str(r.choice(['t', 'time']))
    if style == 'pdt':
        lim = {key: PartialDateTime(*c)}
    elif style == 'list':
        lim = {key: [PartialDateTime(*c)]}
    elif style == 'cli-one':
        lim = get_subset_limits('%s=[%s]' % (key, text(r, c)), Parser())
    elif style == 'cli-two':
        lim = get_subset_limits('%s=[%s,%s]' % (key, text(r, c), text(r, c2)), Parser())
    else:
        lim = {key: [lo, hi] if r.random() < 0.5 else slice(lo, hi)}
    out = d.subset(**lim)
    want = sorted(i + 1. for i, x in enumerate(ts) if lo <= x <= hi)
    if out is None:
        got = []
    else:
        a = np.ma.asarray(out.data)
        got = sorted(np.unique(a.compressed()).tolist())
    t.check(got == want, 'subset-period', lambda: '%s: kept %s want %s' % (t.desc, [str(ts[int(i) - 1]) for i in got][:9],
                                                                         [str(ts[int(i) - 1]) for i in want][:9]))
    t.mark('subset')


def c_aggregate(t, r):
    from cis.parse import get_aggregate_grid
    from cis.time_util import PartialDateTime
    from cf_units import Unit
    c = rand_comp(r, int(r.integers(1, 5)), int(r.integers(1980, 2050)))
    lo, hi = period(c)
    cells = {1: ('P30D', 'P73D', 'P1Y', 'P6M'), 2: ('P1D', 'P7D', 'PT12H', 'P1M'), 3: ('PT1H', 'PT6H', 'P1D', 'PT90M'),
             4: ('PT1M', 'PT10M', 'PT1H', 'PT17M')}[len(c)]
    dur = str(r.choice(cells))
    step = {'P30D': 30 * 86400, 'P73D': 73 * 86400, 'P1Y': 365 * 86400, 'P6M': 180 * 86400, 'P1D': 86400, 'P7D': 7 * 86400, 'PT12H': 43200,
            'P1M': 30 * 86400, 'PT1H': 3600, 'PT6H': 21600, 'PT90M': 5400, 'PT1M': 60, 'PT10M': 600, 'PT17M': 1020}[dur]
    n = int(np.ceil((hi - lo).total_seconds() / step))
    pts = 40
    sec = r.uniform(-0.1, 1.1, pts) * (hi - lo).total_seconds()
    sec = np.round(sec)
    sec = np.where(np.abs(sec / step - np.round(sec / step)) * step < 2, sec + 5, sec)       # away from the edges
    ts = [lo + D.timedelta(seconds=float(x)) for x in sec]
    tv = Unit(gen.TUNIT, calendar='gregorian').date2num(ts).astype(float)
    d = gen.ungridded({'latitude': r.uniform(-9, 9, pts), 'longitude': r.uniform(0, 9, pts), 'time': tv}, np.arange(pts) + 1.)
    style = str(r.choice(['cli', 'pdt']))
    t.describe('aggregate %s %s %s' % (style, c, dur))
    if style == 'cli':
        s = text(r, c)
        g = get_aggregate_grid('t=[%s,%s,%s]' % (s, s, dur), Parser())
    else:
        g = {'t': [PartialDateTime(*c), D.timedelta(seconds=step)]}
    idx = np.floor(sec / step).astype(int)
    inside = (idx >= 0) & (idx < n)
    if not inside.any():
        return
    out = gen.as_list(d.aggregate(how='sum', **g))[0]
    tc = out.coord('time')
    t.check(len(tc.points) == n, 'aggregate-cells', lambda: '%s: %d cells want %d' % (t.desc, len(tc.points), n))
    if len(tc.points) != n:
        return
    w = (lo - D.datetime(1600, 1, 1)).total_seconds() / 86400. + np.arange(n) * step / 86400.
    t.check(bool(np.allclose(tc.bounds[:, 0], w, rtol=0, atol=1e-5 if n == 1 else 1e-8)), 'aggregate-bounds',
            lambda: '%s: %s want %s' % (t.desc, tc.bounds[:3], w[:3]))
    s = np.zeros(n)
    np.add.at(s, idx[inside], (np.arange(pts) + 1.)[inside])
    got = np.ma.filled(np.ma.asarray(out.data).ravel(), 0.)
    cut = n == 1                                # a single cell ends with the period
    t.check(bool(np.all(got == s)) or (cut and got[0] == (np.arange(pts) + 1.)[(sec >= 0) & (sec < (hi - lo).total_seconds())].sum()),
            'aggregate-values', lambda: '%s: %s want %s' % (t.desc, got, s))
    t.mark('aggregate')
