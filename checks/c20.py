"""C20: programs of arithmetic on data objects against the same arithmetic on masked arrays, with the operands fingerprinted."""
import numpy as np
from vmon import gen, snap

CASES = {'quick': 2500, 'thorough': 40000}
RULE = 'one observation per distinct operation (operator, side, operand kinds, masks, shapes, units, in place or not, views cached before) compared with array arithmetic'
REQUIRED = {'operations': 5000, 'in_place': 1000, 'reflected': 500, 'masked_operands': 1500, 'unit_products': 500, 'unary': 800, 'refused_units': 100, 'cached_views': 500,
            'array_left': 100, 'coordinate_operand': 50, 'gridded': 100, 'integer_target': 100, 'broadcast': 50}
ASSUMPTIONS = ['points where the array operation itself is invalid (NaN, infinite or masked by numpy.ma) may be reported in any of those ways',
               'arithmetic on gridded data is delegated to iris: values, masks, coordinates and units are compared but not the class of the result, and an array on the left is not judged',
               'scalars and arrays without units carry the units of the other operand in sums, and none in products']
UN = ['m', 's', 'kg', 'K', '1', 'm s-1', 'kg m-3', 'm2']


def dims(u):
    """exponents of base units of the strings above"""
    out = {}
    for p in u.split():
        b, e = p.rstrip('-0123456789'), p.lstrip('abcdefghijklmnopqrstuvwxyzK')
        if b:
            out[b] = out.get(b, 0) + int(e or 1)
    return out


def combine(a, b, sign):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sign * v
    return {k: v for k, v in out.items() if v}


def unit_string(d):
    return ' '.join('%s%d' % (k, v) for k, v in sorted(d.items())) or '1'


class Obj(object):
    def __init__(self, d, arr, unit):
        self.d, self.arr, self.unit = d, arr, unit       # data object, expected masked array, exponents (or None: not tracked)


def expected(v):
    return np.ma.array(v, copy=True, subok=True)


def bad_points(*arrs):
    m = False
    for a in arrs:
        x = np.ma.asarray(a)
        if x.dtype.kind == 'f':
            m = m | ~np.isfinite(np.ma.filled(x, 0.)) | np.ma.getmaskarray(x)
        else:
            m = m | np.ma.getmaskarray(x)
    return m


def same(got, want, invalid=None):
    """same shape; same mask and values except where the operation is invalid, where any of masked / nan / inf is fine"""
    if np.shape(got) != np.shape(want):
        return False
    g, w = np.ma.asarray(got), np.ma.asarray(want)
    inv = np.zeros(g.shape, bool) if invalid is None else np.broadcast_to(invalid, g.shape)
    gm, wm = np.ma.getmaskarray(g), np.ma.getmaskarray(w)
    gv, wv = np.asarray(g.data).astype(float), np.asarray(w.data).astype(float)
    if np.any((gm != wm) & ~inv):
        return False
    ok = gm | np.isclose(gv, wv, rtol=1e-6 if 'f4' in (g.dtype.str + w.dtype.str) else 1e-11, atol=0, equal_nan=True)
    badg = gm | ~np.isfinite(gv)
    return bool(np.all(np.where(inv, badg, ok)))


def vals(r, shape, kind, masked, pos=False):
    v = r.integers(1 if pos else -40, 41, shape)
    v = (v / 4.).astype(kind) if kind[0] == 'f' else v.astype(kind)
    if masked == 'some':
        m = r.random(shape) < .3
        w = v.copy()
        if kind[0] == 'f' and r.random() < .3:
            w[m] = np.nan
        v = np.ma.masked_array(w, mask=m)
    elif masked == 'nomask':
        v = np.ma.masked_array(v)
    return v


def case(t):
    r = t.rng
    gridded = t.index % 6 == 5
    (gridded_case if gridded else ungridded_case)(t, r)


def make(t, r, shape, co, name):
    kind = str(r.choice(['f8', 'f8', 'f8', 'f4', 'i4', 'i8']))
    masked = str(r.choice(['plain', 'nomask', 'some', 'some']))
    v = vals(r, shape, kind, masked, r.random() < .4)
    u = str(r.choice(UN))
    d = gen.ungridded({k: x.copy() for k, x in co.items()}, v.copy(), name=name, units=u, history='made by hand')
    if masked == 'some':
        t.mark('masked_operands')
    return Obj(d, expected(v), dims(u))


def ungridded_case(t, r):
    shape = [(1,), (5,), (8,), (2, 3), (3, 4), (2, 2, 2)][int(r.integers(0, 6))]
    n = int(np.prod(shape))
    which = [str(x) for x in r.permutation(gen.STD)[:int(r.integers(1, 5))]]
    co = {k: x.reshape(shape) for k, x in gen.rand_coords(r, n, which).items()}
    pool = [make(t, r, shape, co, 'v%d' % i) for i in range(3)]
    for step in range(6):
        if not operation(t, r, pool, shape, step):
            break


def cache(t, r, o):
    """look at the object in various ways first"""
    t.mark('cached_views')
    k = int(r.integers(0, 5))
    if k == 0:
        o.d.data_flattened
    elif k == 1:
        list(o.d.get_all_points())
    elif k == 2:
        o.d.as_data_frame()
    elif k == 3:
        o.d.coords()
        o.d.data_flattened
    else:
        str(o.d)
    return k


def views(t, o, what):
    """every view of the object shows its data"""
    d = o.d
    f = d.data_flattened
    t.check(snap.arr(np.ma.asarray(f)) == snap.arr(np.ma.asarray(np.ma.ravel(d.data))), 'flattened-view-stale', lambda: '%s: flattened %s data %s' % (what, f, d.data))


def operation(t, r, pool, shape, step):
    import cis.maths as cm
    from cf_units import Unit
    a = pool[int(r.integers(0, len(pool)))]
    op = str(r.choice(['add', 'subtract', 'multiply', 'divide', 'pow', 'exp', 'log', 'log2', 'log10', 'abs'], p=[.18, .18, .18, .18, .08, .04, .04, .02, .02, .08]))
    in_place = r.random() < .3
    cached = cache(t, r, a) if r.random() < .3 else None
    A = a.arr
    others = []
    refl = False
    okind = ''
    sym = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'pow': '**'}
    f2 = {'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: x * y, 'divide': lambda x, y: x / y}
    mf = {'add': cm.add, 'subtract': cm.subtract, 'multiply': cm.multiply, 'divide': cm.divide}
    with np.errstate(all='ignore'):
        if op in f2:
            okind = str(r.choice(['obj', 'int', 'float', 'np', 'array', 'marray', 'row', 'coord', 'self'], p=[.42, .1, .1, .06, .1, .1, .04, .05, .03]))
            if okind in ('obj', 'self'):
                b = a if okind == 'self' else pool[int(r.integers(0, len(pool)))]
                if okind == 'obj' and op in ('add', 'subtract') and r.random() < .7:
                    m = [p for p in pool if p.unit == a.unit]
                    b = m[int(r.integers(0, len(m)))]
                B, Bo, bu = b.arr, b.d, b.unit
                others = [b]
            elif okind == 'coord':
                c = a.d.coords()[0]
                B, Bo, bu = np.ma.array(c.data, copy=True), c, None
                t.mark('coordinate_operand')
            else:
                s = float(r.integers(-6, 7)) / 2 or 2.
                if okind == 'int':
                    B = int(r.integers(1, 6))
                elif okind == 'float':
                    B = s
                elif okind == 'np':
                    B = [np.float64(s), np.float32(s), np.int32(3)][int(r.integers(0, 3))]
                elif okind == 'row':
                    B = vals(r, shape[-1:], 'f8', 'plain')
                    t.mark('broadcast')
                else:
                    B = vals(r, shape, 'f8', 'some' if okind == 'marray' else 'plain')
                Bo, bu = B, {}
                # the other operand is on the left
                refl = not in_place and r.random() < .5
            call_f = mf[op]
            style = 'maths' if in_place else str(r.choice(['operator', 'operator', 'maths', 'augmented']))
            if refl:
                style = 'reflected'
                t.mark('reflected')
                if isinstance(B, np.ndarray):
                    t.mark('array_left')
            invalid = None
            try:
                with np.errstate(all='ignore'):
                    W = f2[op](B, A) if refl else f2[op](A, B)
                num, den = (B, A) if refl else (A, B)
                if op == 'divide':
                    invalid = np.ma.filled(np.ma.asarray(den == 0), False) & ~bad_points(np.ma.asarray(num)*0., np.ma.asarray(den)*0.)
            except Exception as e:
                W = e
            units_clash = op in ('add', 'subtract') and okind in ('obj', 'coord') and (bu is None or bu != a.unit) and bu != a.unit
            if okind == 'coord':
                units_clash = op in ('add', 'subtract') and Bo.units != a.d.units
            if okind == 'coord':
                wu = None
            elif op in ('add', 'subtract'):
                wu = a.unit
            else:
                sg = 1 if op == 'multiply' else -1
                wu = combine({}, a.unit, -1) if (refl and op == 'divide') else (combine(a.unit, bu, sg) if a.unit is not None and bu is not None else None)
                if bu:
                    t.mark('unit_products')
        else:
            t.mark('unary')
            Bo = B = None
            invalid = None
            style = 'maths'
            units_clash = False
            if op == 'pow':
                e = [2, 3, 0, 1, -1, -2, .5][int(r.integers(0, 7))]
                style = 'maths' if in_place or r.random() < .5 else 'operator'
                try:
                    W = A ** e if not (A.dtype.kind == 'i' and e < 0) else ValueError('integer power')
                except Exception as x:
                    W = x
                okind = str(e)
                if not isinstance(W, Exception):
                    v = np.ma.filled(A.astype(float), 1.)
                    invalid = ~np.isfinite(np.power(v, float(e))) & ~np.ma.getmaskarray(A)
                wu = {k: v * e for k, v in a.unit.items() if v * e} if a.unit is not None else None
                if wu is not None and any(v != int(v) for v in wu.values()):
                    wu = 'invalid'
                elif wu:
                    wu = {k: int(v) for k, v in wu.items()}
                call_f = lambda d, in_place=False, e=e: cm.exponentiate(d, e, in_place=in_place)   # noqa
            else:
                call_f = getattr(cm, op)
                W = {'abs': abs, 'exp': np.exp, 'log': np.log, 'log2': np.log2, 'log10': np.log10}[op](A)
                if op.startswith('log'):
                    invalid = np.ma.filled(A <= 0, False)
                elif op == 'exp':
                    invalid = ~np.isfinite(np.exp(np.ma.filled(A.astype(float), 0.)))
                wu = {'abs': a.unit, 'exp': {}}.get(op)
    t.describe('step %d: %s %s %s %s%s on %s%s%s units %s' % (
        step, op, okind, style, 'in place ' if in_place else '', '(seen as %s) ' % cached if cached is not None else '', A.dtype, A.shape,
        ' masked' if np.ma.is_masked(A) else '', a.unit) + (' with %s units %s' % (getattr(B, 'dtype', type(B).__name__), others[0].unit if others else None)))
    involved = {id(p): p for p in pool}
    before = {k: snap.snap(p.d) for k, p in involved.items()}
    arr_before = snap.arr(Bo) if isinstance(Bo, np.ndarray) else None
    t.mark('operations')
    if in_place:
        t.mark('in_place')
        if a.arr.dtype.kind == 'i':
            t.mark('integer_target')
    target = a.d
    err = out = None
    try:
        with np.errstate(all='ignore'):
            if op in f2:
                if style == 'operator':
                    out = f2[op](target, Bo)
                elif style == 'reflected':
                    out = f2[op](Bo, target)
                elif style == 'augmented':
                    out = target
                    if op == 'add':
                        out += Bo
                    elif op == 'subtract':
                        out -= Bo
                    elif op == 'multiply':
                        out *= Bo
                    else:
                        out /= Bo
                else:
                    out = call_f(target, Bo, in_place=in_place)
            elif op == 'pow' and style == 'operator':
                out = target ** e
            else:
                out = call_f(target, in_place=in_place)
    except Exception as x:
        err = x
    others_changed(t, before, [p for p in pool if not (in_place and p is a)], arr_before, Bo, involved)
    int_target = in_place and A.dtype.kind == 'i' and not isinstance(W, Exception) and W.dtype.kind != 'i'
    f4_target = in_place and not isinstance(W, Exception) and W.dtype != A.dtype
    key = (op, okind, style, in_place, cached is None, str(A.dtype), A.shape, bool(np.ma.is_masked(A)), str(a.unit), str(getattr(B, 'dtype', '')), bool(np.ma.is_masked(B)) if B is not None else 0)
    if units_clash:
        t.mark('refused_units')
        t.check(err is not None, 'incompatible-units-accepted', lambda: '%s gave %r' % (t.desc, out))
        t.check(snap.diff(before[id(a)], snap.snap(a.d)) is None, 'failed-operation-changed-target', lambda: t.desc)
        t.seen('units', *key)
        return True
    if isinstance(W, Exception) or wu == 'invalid' or (op.startswith('log') and err is not None and isinstance(err, ValueError)):
        if op.startswith('log'):
            try:
                a.d.units.log({'log': np.e, 'log2': 2, 'log10': 10}[op])
                raise err
            except ValueError:
                pass
        if err is not None:
            t.check(snap.diff(before[id(a)], snap.snap(a.d)) is None, 'failed-operation-changed-target', lambda: '%s: %s' % (t.desc, snap.diff(before[id(a)], snap.snap(a.d))))
        elif isinstance(W, Exception):
            t.fail('invalid-operation-accepted', '%s: arrays raise %r' % (t.desc, W))
        else:
            return False
        t.seen('refused', *key)
        return True
    if W.shape != A.shape:
        t.check(err is not None, 'shape-grew', lambda: t.desc)
        t.seen('shape', *key)
        return True
    if err is not None:
        if (int_target or f4_target) and isinstance(err, TypeError):
            # the type of the target cannot hold the result; like arrays, this may be refused
            t.check(snap.diff(before[id(a)], snap.snap(a.d)) is None, 'failed-operation-changed-target', lambda: t.desc)
            t.seen('cast', *key)
            return True
        t.fail('operation-refused', '%s raised %r' % (t.desc, err))
        return False
    t.check(type(out).__name__ == 'UngriddedData', 'result-type', lambda: '%s gave %s' % (t.desc, type(out)))
    if type(out).__name__ != 'UngriddedData':
        return False
    t.check((out is a.d) if in_place else all(out is not p.d for p in pool), 'identity', lambda: t.desc)
    if f4_target and np.asarray(out.data).dtype == A.dtype:
        W = W.astype(A.dtype)
    ok = t.check(same(out.data, W, invalid), 'values', lambda: '%s: got %r want %r from %r and %r' % (t.desc, out.data, W, A, B))
    if wu is not None:
        t.check(out.units == Unit(unit_string(wu)), 'units', lambda: '%s: got %s want %s' % (t.desc, out.units, unit_string(wu)))
    elif op.startswith('log'):
        pass
    else:
        t.check(isinstance(out.units, Unit), 'units', lambda: '%s: %r' % (t.desc, out.units))
    ca = before[id(a)]['coords']
    cb = snap.snap(out)['coords']
    t.check(snap.diff(ca, cb) is None, 'coordinates', lambda: '%s: %s' % (t.desc, snap.diff(ca, cb)))
    t.check(out.var_name == a.d.var_name and 'made by hand' in out.history, 'metadata', lambda: '%s %s %s' % (t.desc, out.var_name, out.history))
    o = Obj(out, expected(out.data), wu if wu is not None else None)
    views(t, o, t.desc)
    t.seen('op', *key)
    if not ok:
        return False
    # operands and result are separate objects
    if not in_place:
        mid = {k: snap.snap(p.d) for k, p in involved.items()}
        out2 = out
        with np.errstate(all='ignore'):
            out2.data[...] = 7
            out2.units = 'kg5'
            for c in out2.coords():
                c.data[...] = 3
        for k, p in involved.items():
            dd = snap.diff(mid[k], snap.snap(p.d))
            t.check(dd is None, 'result-shares-state', lambda: '%s: changing the result changed an operand: %s' % (t.desc, dd))
        return True
    if wu is None or A.size and (np.abs(np.nan_to_num(np.ma.filled(o.arr.astype(float), 0.))) > 1e6).any() or not np.isfinite(np.ma.filled(o.arr.astype(float), 0.)).all():
        # keep the numbers tame: start again
        pool.remove(a)
        if not pool:
            return False
        return True
    a.arr, a.unit = o.arr, o.unit
    return True


def others_changed(t, before, objs, arr_before, Bo, involved):
    for p in objs:
        dd = snap.diff(before[id(p)], snap.snap(p.d))
        t.check(dd is None, 'operand-changed', lambda: '%s: %s' % (t.desc, dd))
    if arr_before is not None:
        t.check(arr_before == snap.arr(Bo), 'operand-changed', lambda: '%s: array operand changed' % t.desc)


def gridded_case(t, r):
    from cf_units import Unit
    kinds = [str(x) for x in r.permutation(['latitude', 'longitude', 'altitude', 'time'])[:int(r.integers(1, 4))]]
    axes = [gen.axis(r, k, int(r.integers(2, 5)) if k != 'longitude' else None) for k in kinds]
    shape = tuple(len(a['points']) for a in axes)
    us = [str(r.choice(UN)) for _ in range(2)]
    if r.random() < .5:
        us[1] = us[0]
    arrs = [vals(r, shape, 'f8', str(r.choice(['plain', 'some', 'some'])), r.random() < .5) for _ in range(2)]
    ds = [gen.cube(axes, v.copy(), name='g%d' % i, units=u) for i, (v, u) in enumerate(zip(arrs, us))]
    f2 = {'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: x * y, 'divide': lambda x, y: x / y}
    before = [snap.snap(d) for d in ds]
    for op in f2:
        k = str(r.choice(['obj', 'scalar', 'left', 'array']))
        A = np.ma.array(arrs[0], copy=True)
        s = 2.5
        B = {'obj': np.ma.array(arrs[1], copy=True), 'scalar': s, 'left': s, 'array': vals(r, shape, 'f8', 'plain')}[k]
        Bo = ds[1] if k == 'obj' else B
        t.describe('gridded %s %s %s units %s' % (op, k, shape, us))
        with np.errstate(all='ignore'):
            W = f2[op](B, A) if k == 'left' else f2[op](A, B)
            clash = k == 'obj' and op in ('add', 'subtract') and dims(us[0]) != dims(us[1])
            try:
                out = f2[op](Bo, ds[0]) if k == 'left' else f2[op](ds[0], Bo)
            except Exception as e:
                t.check(clash, 'operation-refused', lambda: '%s raised %r' % (t.desc, e))
                t.mark('refused_units')
                continue
        t.check(not clash, 'incompatible-units-accepted', lambda: t.desc)
        t.mark('gridded')
        t.mark('operations')
        num, den = (B, A) if k == 'left' else (A, B)
        inv = np.ma.filled(np.ma.asarray(den == 0), False) & ~bad_points(np.ma.asarray(num) * 0., np.ma.asarray(den) * 0.) if op == 'divide' else None
        t.check(same(out.data, W, inv), 'values', lambda: '%s: %s want %s' % (t.desc, out.data, W))
        if k == 'obj' and op in ('multiply', 'divide'):
            wu = combine(dims(us[0]), dims(us[1]), 1 if op == 'multiply' else -1)
        elif k == 'left' and op == 'divide':
            wu = combine({}, dims(us[0]), -1)
        else:
            wu = dims(us[0])
        t.check(out.units == Unit(unit_string(wu)), 'units', lambda: '%s: %s want %s' % (t.desc, out.units, unit_string(wu)))
        ca, cb = [snap.cube_coord(c) for c in ds[0].coords()], [snap.cube_coord(c) for c in out.coords()]
        t.check(snap.diff(ca, cb) is None, 'coordinates', lambda: '%s: %s' % (t.desc, snap.diff(ca, cb)))
        for d, b in zip(ds, before):
            dd = snap.diff(b, snap.snap(d))
            t.check(dd is None, 'operand-changed', lambda: '%s: %s' % (t.desc, dd))
        t.seen('g', op, k, shape, tuple(us), bool(np.ma.is_masked(A)))
