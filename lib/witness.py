"""Compile witnesses: builds the crate's metadata for a set of features and type-checks small client programs against it."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import build

WT = os.path.join(build.BUILD, 'features')


class Lib:
    """the metadata of the crate for one configuration; ok=False when it does not build"""
    def __init__(self, ok, rmeta=None, dirs=(), log=''):
        self.ok = ok
        self.rmeta = rmeta
        self.dirs = sorted(set(dirs))
        self.log = log


def first_error(log):
    m = re.findall(r'^error[^\n]*\n(?: *--> [^\n]*)?', log, re.M)
    return ' '.join(m[0].split()) if m else log.strip()[-300:]


def lib(features=None, default=False, wasm=False, target=None):
    """cargo check of the library with exactly these features"""
    target = target or WT
    with build.Lock('features'):
        build.clean_own(target)
        cmd = ['cargo', '+nightly', 'rustc', '--offline', '--locked', '--lib',
               '--message-format=json']
        if not default:
            cmd.append('--no-default-features')
        if features:
            cmd += ['--features', ','.join(sorted(features))]
        cmd += ['--', '--emit=metadata', '--cap-lints=warn']
        if wasm:
            cmd += ['-Aexplicit_builtin_cfgs_in_flags', '--cfg', 'target_arch="wasm32"']
        env = {'CARGO_TARGET_DIR': target}
        e = dict(os.environ)
        for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER'):
            e.pop(k, None)
        e.update(env, CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true')
        p = subprocess.run(cmd, cwd=build.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        rmeta, dirs, log = None, [], p.stderr
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-artifact':
                for f in m['filenames']:
                    dirs.append(os.path.dirname(f))
                    if m['target']['name'] == 'radixdb' and f.endswith('.rmeta'):
                        rmeta = f
            elif m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error':
                log += m['message'].get('rendered') or ''
        if p.returncode:
            return Lib(False, log=log)
        # keep a copy: the next configuration overwrites it
        keep = tempfile.mkdtemp(prefix='rmeta-', dir=build.BUILD)
        if rmeta is None:
            import glob
            c = [f for pat in ('debug/deps/libradixdb-*.rmeta', 'debug/build/radixdb/*/out/libradixdb-*.rmeta', 'debug/libradixdb.rmeta')
                 for f in glob.glob(os.path.join(target, pat))]
            if not c:
                shutil.rmtree(keep, ignore_errors=True)
                raise build.BuildError('no metadata of radixdb found')
            rmeta = max(c, key=os.path.getmtime)
        out = os.path.join(keep, 'libradixdb.rmeta')
        shutil.copy(rmeta, out)
        r = Lib(True, out, dirs, log)
        r.keep = keep
        return r


def drop(lib_):
    if lib_.ok:
        shutil.rmtree(lib_.keep, ignore_errors=True)


def compile_one(lib_, src):
    """(compiles, [(code, message, line)])"""
    d = tempfile.mkdtemp(prefix='wit-', dir=build.BUILD)
    try:
        f = os.path.join(d, 'w.rs')
        with open(f, 'w') as h:
            h.write(src)
        cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '--error-format=json',
               '-Awarnings', '--extern', 'radixdb=' + lib_.rmeta, '-o', os.path.join(d, 'w.rmeta'), f]
        for x in lib_.dirs:
            cmd += ['-L', 'dependency=' + x]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        errs = []
        for l in p.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                errs.append((None, l, 0))
                continue
            if m.get('level') == 'error':
                sp = [s for s in m.get('spans', []) if s.get('is_primary')]
                errs.append(((m.get('code') or {}).get('code'), m['message'], sp[0]['line_start'] if sp else 0))
        return p.returncode == 0, errs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compile_all(lib_, srcs):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_one(lib_, s), srcs))
