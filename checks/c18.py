"""C18: evaluate gives the array expression's values on the first variable's coordinates, and an expression can reach nothing else."""
import builtins
import os
import sys
import numpy as np
from vmon import gen, snap

CASES = {'quick': 5000, 'thorough': 40000}
RULE = 'one observation per distinct (expression, kinds and shapes of variables, outcome) compared with the array expression, or refused under the audit monitor'
REQUIRED = {'values': 400, 'masked_points': 500, 'escapes': 300, 'refused': 300, 'binding': 60, 'gridded': 200, 'ungridded': 200, 'attributes': 100,
            'wrong_shape': 30, 'mixed_shapes': 30, 'in_place': 30, 'result_aliasing': 20}
ASSUMPTIONS = ['numpy is part of the documented interface and is trusted: what numpy functions and array methods can reach (files, ctypes) is not judged',
               'attribute chains without double underscores through frames of generators are not judged']
SAFE = ['abs', 'all', 'any', 'bool', 'divmod', 'enumerate', 'filter', 'int', 'len', 'map', 'max', 'min', 'pow', 'range', 'reversed', 'round', 'sorted', 'sum', 'zip']
BAD = ('open', 'os.', 'subprocess.', 'socket.', 'shutil.', 'ctypes.', 'import', 'pty.', 'sys._getframe', 'tempfile.', 'glob.', 'builtins.input', 'code.__new__',
       'webbrowser.', 'signal.', 'sys.settrace', 'sys.setprofile', 'pickle.', 'marshal.')
WATCH = {'on': False, 'events': []}


def hook(event, args):
    if WATCH['on'] and event.startswith(BAD):
        WATCH['on'] = False     # Looking at the frames is an event too
        try:
            if not imported_by_cis(event):
                WATCH['events'].append((event, str(args)[:80]))
        finally:
            WATCH['on'] = True


def imported_by_cis(event):
    """Whether this is because of an import statement in the code of CIS itself (rather than in an expression)"""
    f = sys._getframe(2)
    importing = event == 'import'
    while f is not None:
        name = f.f_code.co_filename
        if name.startswith('<frozen importlib'):
            importing = True
        else:
            return importing and os.sep + 'cis' + os.sep in name
        f = f.f_back
    return False


def preload():
    import cis.evaluate      # noqa
    import cis.data_io.gridded_data    # noqa
    import cis.data_io.ungridded_data  # noqa
    sys.addaudithook(hook)


# ------------------------------------------------------------------------------------------- expressions

def expression(r, names, depth):
    """(text, function of a dict of arrays) of the same array expression"""
    if depth <= 0 or r.random() < .12:
        if r.random() < .75:
            n = str(r.choice(names))
            return n, (lambda e, n=n: e[n])
        c = ['2', '0.5', '-3', '1e2', '7.25', '(-1.5)'][int(r.integers(0, 6))]
        return c, (lambda e, v=float(c.strip('()')) if any(x in c for x in '.e') else int(c): v)
    k = int(r.integers(0, 13))
    a, fa = expression(r, names, depth - 1)
    b, fb = expression(r, names, depth - 1)
    if k in (0, 1):
        return '(%s + %s)' % (a, b), lambda e: fa(e) + fb(e)
    if k in (2, 3):
        return '(%s - %s)' % (a, b), lambda e: fa(e) - fb(e)
    if k == 4:
        return '(%s * %s)' % (a, b), lambda e: fa(e) * fb(e)
    if k == 5:
        return '(%s/%s)' % (a, b), lambda e: fa(e) / fb(e)
    if k == 6:
        p = int(r.integers(2, 4))
        return '(%s)**%d' % (a, p), lambda e: fa(e) ** p
    if k == 7:
        return 'abs(%s)' % a, lambda e: abs(fa(e))
    if k == 8:
        f = str(r.choice(['sqrt', 'exp', 'log', 'sin', 'negative', 'floor', 'log10']))
        return 'numpy.%s(%s)' % (f, a), lambda e: getattr(np, f)(fa(e))
    if k == 9:
        f = str(r.choice(['maximum', 'minimum', 'hypot', 'add']))
        return 'numpy.%s(%s, %s)' % (f, a, b), lambda e: getattr(np, f)(fa(e), fb(e))
    if k == 10:
        f = str(r.choice(['mean', 'max', 'sum']))
        return '(%s + numpy.%s(%s))' % (b, f, a), lambda e: fb(e) + getattr(np, f)(fa(e))
    if k == 11:
        return 'numpy.ma.where(%s > %s, %s, %s)' % (a, b, a, b), lambda e: np.ma.where(fa(e) > fb(e), fa(e), fb(e))
    return '(-%s)' % a, lambda e: -fa(e)


def binding(r, names):
    """expressions which name variables inside lambdas, generators and comprehensions"""
    a = str(r.choice(names))
    b = str(r.choice(names))
    m = int(r.integers(2, 5))
    return [
        ('sum(%s * k for k in range(%d))' % (a, m), lambda e: sum(e[a] * k for k in range(m))),
        ('sum([%s * k + %s for k in range(%d)])' % (a, b, m), lambda e: sum([e[a] * k + e[b] for k in range(m)])),
        ('sum(map(lambda k: %s + k, range(%d)))' % (a, m), lambda e: sum(map(lambda k: e[a] + k, range(m)))),
        ('(lambda x: x + %s)(%s)' % (a, b), lambda e: (lambda x: x + e[a])(e[b])),
        ('sum(x * k for k, x in enumerate([%s, %s]))' % (a, b), lambda e: e[a] * 0 + e[b]),
        ('numpy.ma.array([v if v > 0 else 0 for v in numpy.ma.ravel(%s).filled(0)]).reshape(%s.shape)' % (a, b),
         lambda e: np.ma.array([v if v > 0 else 0 for v in np.ma.ravel(e[a]).filled(0)]).reshape(e[b].shape)),
        ('max([numpy.ma.max(x) for x in (%s, %s)]) + %s' % (a, b, a), lambda e: max([np.ma.max(x) for x in (e[a], e[b])]) + e[a]),
        ('sorted([(k, %s - k) for k in (3, 1, 2)], key=lambda p: p[0])[0][1]' % a, lambda e: e[a] - 1),
        ('list_of[0] if 0 else %s * len([x for x in (%s, %s)])' % (a, a, b), lambda e: e[a] * 2),
    ][int(r.integers(0, 9))]


def escapes(r, names, target):
    a = str(r.choice(names))
    pool = sorted(set(dir(builtins)) - set(SAFE) - {'True', 'False', 'None', 'numpy', 'copyright', 'credits', 'license', 'exit', 'quit'})
    n = str(r.choice([x for x in pool if '__' not in x]))
    use = [n, '%s(%s)' % (n, a), '[%s for i in range(2)][0]' % n, '(lambda: %s)()' % n, 'sum(%s for k in range(1))' % n,
           '%s + %s' % (a, n), '%s * len((%s,))' % (a, n), '(lambda f: %s)(%s)' % (a, n), '[%s for f in (%s, 1)][0]' % (a, n), '%s * len({1: %s})' % (a, n), '[f for f in map(%s, [1])]' % n, '%s if True else 1' % n]
    forms = [
        ("open(%r, 'w')" % target, 1), ("%s * open(%r, 'w').write('x')" % (a, target), 1), ("__import__('os').system('touch %s')" % target, 1),
        ("eval('1')", 1), ("exec('x=1')", 1), ("compile('1', 'x', 'eval')", 1), ("getattr(%s, '_' + '_class_' + '_')" % a, 1),
        ("setattr(%s, 'x', 1)" % a, 1), ("globals()", 1), ("locals()", 1), ("vars(%s)" % a, 1), ("%s.__class__" % a, 1),
        ("().__class__.__bases__[0].__subclasses__()", 1), ("os.system('touch %s')" % target, 1), ("sys.modules", 1), ("subprocess.call(['touch', %r])" % target, 1),
        ("(lambda: open(%r, 'w'))()" % target, 1), ("[open(p, 'w') for p in [%r]]" % target, 1), ("list(map(open, [%r]))" % target, 1),
        ("sum(open(p, 'w').write('x') for p in [%r])" % target, 1), ("input()", 1), ("type(%s)" % a, 1), ("object", 1), ("breakpoint()", 1),
        ("self", 1), ("data_list", 1), ("expr", 1), ("safe_globals", 1), ("safe_locals", 1), ("Calculator", 1), ("EvaluationError", 1), ("mul(%s, 2)" % a, 1),
        ("six", 1), ("cis", 1), ("hook", 1), ("np", 1), ("import os", 1), ("%s; import os" % a, 1), ("x = 1", 1), ("print(%s)" % a, 1),
        ("reduce", 1), ("%s\nimport os" % a, 1), ("f'{open(%r, %r)}'" % (target, 'w'), 1), ("'%%s' %% open(%r, 'w')" % target, 1),
    ]
    if r.random() < .25:
        # Anything with a double underscore, whatever it would give (these would all be the same shape as the variable)
        text = str(r.choice(["%s.__neg__()", "%s.__add__(1)", "%s.__class__(%s.shape) * 0", "(lambda __x: __x)(%s)", "[y__x for y__x in (%s,)][0]", "%s * len('__')",
                             "%s + %s.__len__()", "%s * 1  # __", "%s.__array__()", "(lambda x__: x__ * 2)(%s)", "abs(%s.__abs__())", "%s.__iadd__(1)",
                             "%s * len(().__class__.__bases__[0].__subclasses__())"])).replace('%s', a)
        if r.random() < .4 and "'" not in text and '#' not in text:
            # Python takes any of these as an underscore (when they are part of a name)
            k = r.choice(['\uff3f', '\ufe4d', '\ufe4e', '\ufe4f', '\ufe33', '\ufe34'])
            text = text.replace('__', [k + k, '_' + k][int(r.integers(0, 2))])
        return text
    if r.random() < .5:
        return use[int(r.integers(0, len(use)))]
    return forms[int(r.integers(0, len(forms)))][0]


# ------------------------------------------------------------------------------------------- data

def make(t):
    from cis.data_io.gridded_data import GriddedDataList
    r = t.rng
    gridded = r.random() < .5
    nv = int(r.integers(1, 4))
    names = [str(x) for x in r.permutation(['a', 'b', 'var1', 'AOT550', 'v_x', 'q', 'numpyx', 'sumx', 'T'])[:nv]]
    kinds = [str(r.choice(['f8', 'f8', 'f4', 'i4'])) for _ in names]
    masks = [r.random() < .5 for _ in names]

    def vals(shape, kind, masked):
        v = (r.integers(-400, 400, shape) / (4.0 if kind != 'i4' else 1)).astype(kind)
        if r.random() < .2:
            v = np.abs(v)
        if masked:
            v = np.ma.masked_array(v, mask=r.random(shape) < .3)
            t.mark('masked_points', v.mask.sum())
        elif r.random() < .1 and kind != 'i4':
            v = np.ma.masked_array(v)
        return v
    out = []
    if gridded:
        dims = [str(x) for x in r.permutation(['latitude', 'longitude', 'altitude', 'time'])[:int(r.integers(1, 4))]]
        axes = [gen.axis(r, k, int(r.integers(1, 5)) if k != 'longitude' else None) for k in dims]
        shape = tuple(len(a['points']) for a in axes)
        t.mark('gridded')
        for n, k, m in zip(names, kinds, masks):
            out.append(gen.cube(axes, vals(shape, k, m), name=n, units='K'))
    else:
        t.mark('ungridded')
        size = int(r.choice([1, 2, 6, 12, 24]))
        shapes = {1: [(1,)], 2: [(2,), (1, 2)], 6: [(6,), (2, 3), (3, 2)], 12: [(12,), (3, 4), (2, 3, 2)], 24: [(24,), (4, 6), (2, 3, 4)]}[size]
        shape = shapes[int(r.integers(0, len(shapes)))]
        which = [str(x) for x in r.permutation(gen.STD)[:int(r.integers(1, 5))]]
        co = gen.rand_coords(r, size, which)
        for n, k, m in zip(names, kinds, masks):
            s = shape if r.random() < .6 else shapes[int(r.integers(0, len(shapes)))]
            if s != shape:
                t.mark('mixed_shapes')
            out.append(gen.ungridded({c: x.reshape(s).copy() for c, x in co.items()}, vals(s, k, m), name=n, units='K'))
    for i, d in enumerate(out):
        d.filenames = ['file%d.nc' % i]
    if r.random() < .35:
        i = int(r.integers(0, nv))
        new = ['alias1', 'B2', 'x_y', 'mine'][int(r.integers(0, 4))]
        out[i].alias = new
        names[i] = new
        t.mark('alias')
    if gridded and r.random() < .5:
        out = GriddedDataList(out)
    return gridded, names, out


def env_of(gridded, names, data):
    e = {}
    for n, d in zip(names, data):
        v = d.data
        v = v.copy() if gridded else v.flatten()
        e[n] = v
    return e


def case(t):
    from cis.evaluate import Calculator, EvaluationError
    r = t.rng
    gridded, names, data = make(t)
    before = snap.snap(list(data))
    k = t.index % 10
    shape = data[0].data.shape if gridded else (data[0].data.size,)
    kw = {}
    if k in (6, 7):
        target = t.path('escaped')
        WATCH['events'] = []
        n = 0
        for _ in range(6):
            text = escapes(r, names, target)
            t.describe('escape %r over %s' % (text, names))
            t.mark('escapes')
            try:
                WATCH['on'] = True
                try:
                    out = Calculator().evaluate(data, text, 'out', '1', None)
                finally:
                    WATCH['on'] = False
            except Exception:
                t.mark('refused')
            else:
                t.fail('escape-evaluated', '%s gave %r' % (t.desc, out))
            t.check(not WATCH['events'], 'escape-side-effect', lambda: '%s caused %s' % (t.desc, WATCH['events'][:4]))
            t.check(not os.path.exists(target), 'escape-wrote-file', lambda: t.desc)
            WATCH['events'] = []
            t.seen('escape', text.replace(target, 'F'))
            n += 1
        unchanged(t, before, data)
        return
    if k == 8:
        text = ['numpy.mean({0})', '{0}[:-1]' if len(data[0].data) > 1 else '{0}[:0]', 'numpy.ma.concatenate([{0}, {0}])', '[1, 2]', '3', '{0}.sum()', 'numpy.array([{0}, {0}, {0}])',
                'undefined_variable', '{0} + undefined', '{0} +', 'max({0}.shape)', 'numpy.outer({0}, numpy.ones(3))'][int(r.integers(0, 12))].format(names[0])
        t.describe('wrong shape: %s over %s' % (text, names))
        try:
            out = Calculator().evaluate(data, text)
        except Exception as e:
            t.mark('wrong_shape')
            if text.startswith(('numpy.ma', 'numpy.array', names[0] + '[')) or 'undefined' in text:
                t.check(isinstance(e, EvaluationError), 'wrong-error', lambda: '%s raised %r' % (t.desc, e))
        else:
            if text.endswith('.sum()') or text.startswith('numpy.mean') or 'outer' in text or 'concat' in text or 'array(' in text or 'undefined' in text:
                t.fail('wrong-shape-accepted', '%s gave %s' % (t.desc, out.data))
        unchanged(t, before, data)
        t.seen('shape', text, gridded)
        return
    if k == 9:
        a = names[0]
        b = names[-1]
        text = ['numpy.add({0}, {1}, out={0})', '({0}.sort(), {0})[1]', '({0}.fill(0), {1})[1]', 'numpy.multiply({0}, 1, {0})', '({0}.put(0, 5), {0})[1]',
                '({0}.resize((1,)), {0})[1]', '(numpy.put({0}, [0], [77]), {0} + {1})[1]', '{0}', '({0})', '{0}.reshape({0}.shape)', '{0}[...]'][int(r.integers(0, 11))].format(a, b)
        t.describe('in place: %s over %s' % (text, names))
        t.mark('in_place')
        out = None
        try:
            out = Calculator().evaluate(data, text)
        except Exception:
            t.mark('in_place_refused')
        unchanged(t, before, data)
        if out is not None:
            # the result is the caller's own: changing it leaves the inputs alone
            out.data[...] = 12345
            unchanged(t, before, data, 'result-shares-data')
            t.mark('result_aliasing')
        t.seen('inplace', text, gridded, masked(data))
        return
    if k == 5:
        text, f = binding(r, names)
        t.mark('binding')
    else:
        text, f = expression(r, names, int(r.integers(1, 4)))
        if text[:1] == '(' and text[-1:] == ')' and text.count('(') == 1 and r.random() < .5:
            text = text[1:-1]
        if not any(n in text for n in names):
            text, f0 = '%s + %s' % (text, names[0]), f
            f = lambda e, f0=f0: f0(e) + e[names[0]]     # noqa
    var = str(r.choice(['out', 'my_var', 'calc'])) if r.random() < .6 else None
    units = str(r.choice(['K', '1', 'kg m-3', ''])) if r.random() < .6 else None
    attrs = dict(list({'comment': 'made by me', 'version': '6.1', 'echam_version': 'x y', 'source': 'CIS', 'platform': 'p'}.items())[:int(r.integers(1, 5))]) if r.random() < .4 else None
    t.describe('%s over %s %s' % (text, 'gridded' if gridded else 'ungridded', [(n, d.data.dtype.str, d.data.shape, bool(np.ma.is_masked(d.data))) for n, d in zip(names, data)]))
    with np.errstate(all='ignore'):
        try:
            want = f(env_of(gridded, names, data))
        except Exception as e:
            want = e
    if isinstance(want, Exception) or not isinstance(want, np.ndarray) or want.shape != shape:
        try:
            with np.errstate(all='ignore'):
                out = Calculator().evaluate(data, text, var, units, attrs)
        except Exception:
            t.mark('bad_expression_refused')
        else:
            t.check(False, 'bad-result-accepted', lambda: '%s: array expression gives %r, evaluate gave %s' % (t.desc, want, out.data))
        unchanged(t, before, data)
        t.seen('bad', text)
        return
    with np.errstate(all='ignore'):
        out = Calculator().evaluate(data, text, var, units, attrs)
    t.mark('values')
    got = out.data
    t.check(got.shape == shape, 'shape', lambda: '%s: %s not %s' % (t.desc, got.shape, shape))
    t.check(gen.compatible(got, want, 1e-12, 0), 'values', lambda: '%s: got %s want %s' % (t.desc, got.ravel()[:6], want.ravel()[:6]))
    # identity of the result
    t.check(type(out) is (type(data[0])), 'type', lambda: str(type(out)))
    t.check(out.var_name == (var or 'calculated_variable'), 'var-name', lambda: '%s: %r' % (t.desc, out.var_name))
    want_units = units if units is not None else 'unknown'
    ok = out.units == want_units or str(out.units) == want_units or (want_units == '' and str(out.units) in ('', '1', 'unknown'))
    t.check(ok, 'units', lambda: '%s: %r wanted %r' % (t.desc, out.units, want_units))
    t.check(out.standard_name in (None, ''), 'standard-name', lambda: repr(out.standard_name))
    h = out.history
    t.check(text in h, 'history-expression', lambda: '%s not in %s' % (text, h))
    for n, d, i in zip(names, data, range(9)):
        t.check(repr(d.var_name) in h and 'file%d.nc' % i in h and n in h, 'history-variables', lambda: '%s %s not in %s' % (d.var_name, n, h))
    if attrs:
        t.mark('attributes')
        for key, v in attrs.items():
            t.check(out.attributes.get(key) == v, 'attributes', lambda: '%s missing from %s' % (key, out.attributes))
    # coordinates of the first variable
    if gridded:
        a, b = data[0], out
        da = [(i, snap.cube_coord(c), repr(a.coord_dims(c))) for i, c in enumerate(a.coords())]
        db = [(i, snap.cube_coord(c), repr(b.coord_dims(c))) for i, c in enumerate(b.coords())]
        t.check(snap.diff(da, db) is None, 'coordinates', lambda: '%s: %s' % (t.desc, snap.diff(da, db)))
    else:
        ca, cb = data[0].coords(), out.coords()
        t.check([c.standard_name for c in ca] == [c.standard_name for c in cb], 'coordinates', lambda: 'coordinates %s and %s' % (ca, cb))
        for x, y in zip(ca, cb):
            t.check(gen.compatible(np.ma.ravel(x.data), y.data, 0, 0) and y.data.ndim == 1 and str(x.units) == str(y.units) and x.axis == y.axis, 'coordinates',
                    lambda: '%s: %s became %s' % (t.desc, x.data, y.data))
    unchanged(t, before, data)
    t.seen('value', text, gridded, shape, masked(data), var, units)


def masked(data):
    return tuple(bool(np.ma.is_masked(d.data)) for d in data)


def unchanged(t, before, data, mech='inputs-changed'):
    d = snap.diff(before, snap.snap(list(data)))
    t.check(d is None, mech, lambda: '%s: %s' % (t.desc, d))
