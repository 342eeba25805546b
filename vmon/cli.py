"""Running the command line in this process (or a child), with a scripted terminal, and looking at the file system around it."""
import hashlib
import io
import os
import sys


def run(args, cwd, answers=(), env=None, home=None):
    """Run `cis <args>` via its main function.  Returns dict(code, out, err, exc)"""
    import cis.cis_main as cm
    import logging
    old = (sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd())
    olde = os.environ.get('CIS_FORCE_OVERWRITE')
    out, err = io.StringIO(), io.StringIO()
    code, exc = 0, None
    os.environ.pop('CIS_FORCE_OVERWRITE', None)
    if env is not None:
        os.environ['CIS_FORCE_OVERWRITE'] = env
    try:
        os.chdir(cwd)
        sys.argv = ['cis'] + list(args)
        sys.stdin, sys.stdout, sys.stderr = io.StringIO(''.join(a + '\n' for a in answers)), out, err
        try:
            cm.main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception as e:      # main is not meant to let any through
            code, exc = 1, e
    finally:
        left = sys.stdin.read() if hasattr(sys.stdin, 'read') and not sys.stdin.closed else ''
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old[:4]
        os.chdir(old[4])
        os.environ.pop('CIS_FORCE_OVERWRITE', None)
        if olde is not None:
            os.environ['CIS_FORCE_OVERWRITE'] = olde
        for h in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(h)
            try:
                h.close()
            except Exception:
                pass
        logging.captureWarnings(False)
    return dict(code=code, out=out.getvalue(), err=err.getvalue(), exc=exc, left=left)


def child(args, cwd, answers, env, fsize=None, kill=None):
    """The same in a forked child, which may run out of file size or be killed; returns the wait status"""
    import resource
    import signal
    import time
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            r = run(args, cwd, answers, env)
            os._exit(0 if r['code'] == 0 else 1)
        except BaseException:
            os._exit(9)
    if kill is not None:
        end = time.time() + kill
        while time.time() < end:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return st
            time.sleep(0.002)
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    return st


def subproc(args, cwd, answers, env, repo):
    import subprocess
    e = dict(os.environ)
    e.pop('CIS_FORCE_OVERWRITE', None)
    if env is not None:
        e['CIS_FORCE_OVERWRITE'] = env
    e['PYTHONPATH'] = repo
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import cis.cis_main as m; m.main()'] + list(args), cwd=cwd, env=e,
                       input=''.join(a + '\n' for a in answers), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=120)
    return dict(code=p.returncode, out=p.stdout, err=p.stderr, exc=None, left='')


def tree(d):
    """path -> what is there: kind, inode, size, modification time, digest, link target"""
    res = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if os.path.islink(p):
                res[p] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                res[p] = ('dir',)
            else:
                with open(p, 'rb') as f:
                    res[p] = ('file', hashlib.sha1(f.read()).hexdigest(), st.st_size, st.st_mtime_ns, st.st_ino)
    return res


def changed(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))
