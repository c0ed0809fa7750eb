"""Stage /repo/package in a scratch directory and build the extension modules
named by a check from the staged (= current) sources."""
import glob, os, shutil, subprocess, sys, sysconfig, tempfile
from concurrent.futures import ThreadPoolExecutor

VENV = '/opt/venv/bin/python'
FFLAGS = "-g -ffixed-form -fno-second-underscore -fPIC -O3 -funroll-loops -w".split()
CFLAGS = "-fno-strict-aliasing -O1 -fPIC -w".split()
EXTS = {
    '_cbmlike': ('count', ['_cbmlike.pyf', '_cbmlike.f']),
    '_obsinfo': ('deriv', ['_obsinfo.pyf', '_obsinfo.f']),
    '_gridquad': ('grid', ['_gridquad.f']),
    '_adapt': ('integrate', ['adapt.pyf', 'adapt_py.f']),
    '_dcuhre': ('integrate', ['dcuhre.pyf', 'dcuhre_py.f', 'dadhre.f', 'dchhre.f', 'd07hre.f', 'd09hre.f',
                              'd113re.f', 'd132re.f', 'dfshre.f', 'dinhre.f', 'drlhre.f', 'dtrhre.f']),
}


def _ext_sources(pkg, name):
    """source list as the package's setup.py gives it (fallback: table above)"""
    d, default = EXTS[name]
    return os.path.join(pkg, 'inference', d), default


def build(pkg, name, inc):
    path, srcs = _ext_sources(pkg, name)
    work = tempfile.mkdtemp(prefix='b_', dir=os.path.dirname(pkg))
    srcs = [os.path.join(path, s) for s in srcs]
    pyf = [s for s in srcs if s.endswith('.pyf')]
    fortran = [s for s in srcs if s.endswith('.f')]

    def run(c):
        r = subprocess.run(c, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('%s: %s' % (name, r.stdout[-2000:]))
    run([VENV, '-m', 'numpy.f2py', '--build-dir', work] + (pyf or ['-m', name] + fortran))
    csrc = glob.glob(work + '/*module.c') + [inc['f2py'] + '/fortranobject.c']
    fortran += glob.glob(work + '/*-f2pywrappers.f')
    objs, procs = [], []
    for s in csrc + fortran:
        o = os.path.join(work, os.path.basename(s) + '.o')
        objs.append(o)
        if s.endswith('.c'):
            cmd = ['gcc'] + CFLAGS + ['-I' + d for d in (work, path, inc['f2py'], inc['np'], inc['py'])]
        else:
            cmd = ['gfortran'] + FFLAGS
        procs.append((s, subprocess.Popen(cmd + ['-c', s, '-o', o], cwd=work, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise RuntimeError('%s: %s' % (name, out[-2000:]))
    run(['gfortran', '-shared'] + objs + ['-o', os.path.join(path, name + inc['suffix']), '-lm'])
    shutil.rmtree(work, ignore_errors=True)


def stage(exts, repo='/repo'):
    top = tempfile.mkdtemp(prefix='vcstage_')
    pkg = os.path.join(top, 'package')
    shutil.copytree(os.path.join(repo, 'package'), pkg, symlinks=True,
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.dSYM', 'mc'))
    if exts:
        q = ("import numpy,numpy.f2py,sysconfig,json;print(json.dumps(dict(f2py=numpy.f2py.get_include(),"
             "np=numpy.get_include(),py=sysconfig.get_path('include'),suffix=sysconfig.get_config_var('EXT_SUFFIX'))))")
        import json
        inc = json.loads(subprocess.check_output([VENV, '-c', q], text=True))
        with ThreadPoolExecutor(5) as ex:
            for f in [ex.submit(build, pkg, e, inc) for e in exts]:
                f.result()
    return top, pkg


def run_env(pkg):
    env = dict(os.environ)
    env.update(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONNOUSERSITE='1', PYTHONPATH=pkg, MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=os.path.join(os.path.dirname(pkg), 'mpl'))
    return env
