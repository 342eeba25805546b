"""Plant a bug: python3 tools/plant.py SPEC.py   (SPEC defines ID, PROP, EDITS=[(path, old, new)], DEMO, NEEDS, BREAKS)
Confirms it in scratch copies of /repo, writes seeded/<ID>/ and reports whether the quick check catches it.
python3 tools/plant.py --recheck [ID...] re-runs the quick checks against the kept bugs."""
import json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg', TZ='UTC', OMP_NUM_THREADS='1',
           MPLCONFIGDIR='/tmp/mplcfg')
ENV.pop('PYTHONPATH', None)
DEMO_SH = '''#!/bin/bash
# cwd is the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg TZ=UTC PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
unset CIS_DATA_HOME CIS_PLUGIN_HOME
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp "$here"/*.py "$work"/
cd "$work" && timeout 250 /opt/venv/bin/python "$work/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def passed(cwd):
    d = tempfile.mkdtemp()
    opts = [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:warnings', '--tb=short', '--timeout=300',
            '--continue-on-collection-errors', '-o', 'junit_family=xunit2']
    I = 'cis/test/integration/'
    sets = {'unit': ['cis/test/unit'],
            'integration': [I + q for q in ('test_read_api.py', 'test_version.py', 'test_io/test_hdf.py', 'test_io/test_write_netcdf.py',
                                            'test_io/test_products/test_Aproduct.py', 'test_io/test_products/test_data_products.py',
                                            'test_io/test_products/test_ncar_raf.py')]}
    ps = [subprocess.Popen(opts + ['--junitxml=%s/%s.xml' % (d, k)] + v, cwd=cwd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
          for k, v in sets.items()]
    [p.wait() for p in ps]
    ok = set()
    for k in sets:
        for c in ET.parse('%s/%s.xml' % (d, k)).iter('testcase'):
            if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
                ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    shutil.rmtree(d)
    return ok


def check(prop, repo, tier='quick', seed='1'):
    r = subprocess.run(['bash', 'run.sh', prop, tier, '--seed', seed], cwd=V, env=dict(ENV, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hit = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + prop)]
    return r.returncode == 1 and bool(hit), r.stdout[:600]


def main():
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        for i in ids:
            d = V + '/seeded/' + i
            s = tempfile.mkdtemp(prefix='plant')
            subprocess.check_call(['cp', '-a', '/repo/.', s])
            a = sh('git apply ' + d + '/patch.diff', s)
            m = json.load(open(d + '/meta.json'))
            c, o = check(m['property'], s) if a.returncode == 0 else (False, 'DOES NOT APPLY ' + a.stdout)
            print(i, m['property'], 'caught' if c else 'MISSED', '' if c else o[:300], flush=True)
            shutil.rmtree(s)
        return
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    d = V + '/seeded/' + spec['ID']
    s = tempfile.mkdtemp(prefix='plant')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', s])
        blames = {}
        for path, old, new in spec['EDITS']:
            f = os.path.join(s, path)
            t = open(f).read()
            if t.count(old) != 1:
                print('edit not unique', t.count(old), path, old)
                return
            open(f, 'w').write(t.replace(old, new))
        diff = sh('git diff', s).stdout
        # removed lines must be original ones
        minus = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        orig = [sum(1 for p, _, _ in spec['EDITS'] if l in sh(['git', 'show', 'f7a8b63:' + p], s).stdout.splitlines()) > 0 for l in minus]
        print('removed lines', len(minus), 'original', sum(orig))
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        open(d + '/demo.py', 'w').write(spec['DEMO'])
        json.dump(dict(property=spec['PROP'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        a, b = sh(['bash', d + '/demo.sh'], '/repo'), sh(['bash', d + '/demo.sh'], s)
        print('demo clean rc', a.returncode, '' if not a.returncode else a.stdout[-800:])
        print('demo patched rc', b.returncode, b.stdout[-300:])
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = sorted(stable - passed(s))
        print('stable missing', len(miss), miss[:5])
        c, o = check(spec['PROP'], s)
        print('CHECK', 'caught' if c else 'MISSED', o)
        good = a.returncode == 0 and b.returncode != 0 and not miss
        print('KEPT' if good else 'REJECTED', spec['ID'])
        if not good:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(s)


main()
