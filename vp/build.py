"""Compiles the wrapper translation units (which include /repo's real sources) to LLVM IR and to
native shared objects; everything is rebuilt from /repo's working tree on every run."""
import os
import subprocess
import tempfile
import shutil
import atexit

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'
OPT = shutil.which('opt-18') or shutil.which('opt') or 'opt'

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vpw')
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp


def cfg_flags(cfg):
    base = ['-std=c++11', '-DPP_USE_EASYLOGGING', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_MAX_STATIC_ALIGN_BYTES=0',
            '-DPP_EDGE_VERSION="offline"', '-I' + VERIF + '/shim', '-I' + VERIF + '/contracts', '-isystem', '/usr/include/eigen3',
            '-Wno-everything', '-DEIGEN_NO_DEBUG']
    if cfg.get('tool') == 'edge_v':
        base += ['-I' + REPO + '/tools/edge_v', '-I' + REPO + '/tools/edge_v/src', '-DPP_USE_METIS', '-I/opt/vp/deps/include',
                 '-isystem', '/usr/include/hdf5/serial']
    elif cfg.get('tool') == 'edge_cut':
        base += ['-I' + REPO + '/tools/edge_cut', '-I' + REPO + '/tools/edge_cut/src', '-I/opt/vp/deps/include']
    else:
        base += ['-I' + REPO, '-I' + REPO + '/src', '-I/opt/vp/deps/include', '-isystem', '/usr/include/hdf5/serial']
        d = dict(N_CRUNS=1, ORDER=2, PRECISION=64, EL='TET4', EQ='SEISMIC', RMS=0)
        d.update({k: v for k, v in cfg.items() if k in d})
        base += [f'-DPP_N_CRUNS={d["N_CRUNS"]}', f'-DPP_ORDER={d["ORDER"]}', f'-DPP_PRECISION={d["PRECISION"]}',
                 f'-DPP_T_ELEMENTS_{d["EL"]}', f'-DPP_T_EQUATIONS_{d["EQ"]}', '-DPP_T_KERNELS_VANILLA', '-DPP_HAS_HDF5']
        if d['EQ'] == 'SEISMIC':
            base += [f'-DPP_N_RELAXATION_MECHANISMS={d["RMS"]}']
    base += cfg.get('flags', [])
    return base


class BuildError(Exception):
    pass


def _run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f'{what} failed: ' + (r.stderr or r.stdout)[-4000:])


PASSES = 'function(sroa,early-cse,simplifycfg,loop-simplify)'


def ir(src, cfg, key):
    """src: path of the wrapper TU; returns path of the optimised .bc"""
    out = os.path.join(tmpdir(), key + '.bc')
    if os.path.exists(out):
        return out
    raw = os.path.join(tmpdir(), key + f'.{os.getpid()}.raw.bc')
    _run([CLANG] + cfg_flags(cfg) + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-ffp-contract=off',
                                     '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics', '-c', '-emit-llvm',
                                     src, '-o', raw], 'clang')
    _run([OPT, '-passes=' + cfg.get('passes', PASSES), raw, '-o', out + '.part'], 'opt')
    os.replace(out + '.part', out)
    os.unlink(raw)
    return out


def native(src, cfg, key):
    out = os.path.join(tmpdir(), key + '.so')
    if os.path.exists(out):
        return out
    part = f'{out}.{os.getpid()}'
    _run([CLANG] + cfg_flags(cfg) + ['-O1', '-DVP_NATIVE', '-ffp-contract=off', '-fexceptions', '-fPIC', '-shared', src, '-o', part]
         + cfg.get('libs', []), 'clang (native)')
    os.replace(part, out)
    return out
