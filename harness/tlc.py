"""Run TLC with the arithmetic override."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JARS = ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar']


class MachineryError(Exception):
    pass


def classes():
    """Compile the override once (setup_cmd does; a check does if that was skipped)."""
    src = os.path.join(SPEC, 'java', 'itm', 'Real64Overrides.java')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'classes-' + tag)
    if not os.path.exists(os.path.join(out, 'itm', 'Real64Overrides.class')):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        r = subprocess.run(['javac', '-cp', JARS[0], '-d', tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError('javac: ' + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def run(module, cfg, env=None, workers=8, timeout=840, heap='6g', extra=()):
    """Run TLC on spec/<module>.tla with the given cfg text. Returns (stdout, stats)."""
    work = tempfile.mkdtemp(prefix='itmtlc.')
    try:
        for f in glob.glob(os.path.join(SPEC, '*.tla')):
            shutil.copy(f, work)
        with open(os.path.join(work, module + '.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Djava.io.tmpdir=' + work, '-Xss64m',
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:itm.Real64Overrides',
               '-cp', ':'.join([classes()] + JARS), 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(work, 'states'), '-noGenerateSpecTE', '-deadlock',
               '-config', module + '.cfg', *extra, module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        e['TMPDIR'] = work
        try:
            r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on ' + module)
        out = r.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        stats = {'generated': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0,
                 'rc': r.returncode,
                 'ok': 'Model checking completed. No error has been found.' in out}
        return out, stats
    finally:
        shutil.rmtree(work, ignore_errors=True)
