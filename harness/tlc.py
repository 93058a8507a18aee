"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TLCError(Exception):
    pass


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ''))
        g = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (int(x.replace(',', '')) for x in g[-1]) if g else (0, 0)

    @property
    def ok(self):
        return self.rc == 0


def run(module, cfg=None, env=None, args=(), workers='auto', timeout=800, heap='6g', props=()):
    """Run TLC on a module of spec/; everything it writes goes to a scratch directory."""
    scratch = tempfile.mkdtemp(prefix='verif-tlc-')
    try:
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + scratch]
        cmd += ['-D' + p for p in props]
        cmd += ['-cp', JARS, 'tlc2.TLC', '-metadir', scratch, '-noGenerateSpecTE', '-workers', str(workers),
                '-config', os.path.join(SPEC, cfg or module + '.cfg')]
        cmd += list(args) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=scratch, timeout=timeout)
        return Result(p.returncode, p.stdout.decode('utf-8', 'replace'))
    except subprocess.TimeoutExpired as x:
        raise TLCError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
