#!/usr/bin/env python3
"""Author / verify planted bugs.

plant.py new FILE.py ...   create seeded/<id>/ from authoring files (each
                           defines ID, PROPERTY, NEEDS, BREAKS, EDITS =
                           [(path, old, new)], DEMO = python source)
plant.py verify ID ...     builds, tests, demo on both trees in a scratch copy
plant.py check ID [CHECK..] runs the property's check (or those named) on it
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# exit 0: fine, nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout)


class Scratch(object):
    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
        self.dir = os.path.join(self.top, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', self.dir])
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top)

    def build(self):
        r = sh([PY, 'setup.py', 'build_ext', '--inplace', '--force'],
               self.dir)
        if r.returncode:
            print(r.stdout.decode()[-2000:])
        return r.returncode == 0

    def env(self):
        return dict(PYTHONPATH=self.dir, PYTHONDONTWRITEBYTECODE='1',
                    PYTHONHASHSEED='0', MPLBACKEND='Agg', LANG='C.UTF-8',
                    OMP_NUM_THREADS='1')

    def tests(self):
        out = os.path.join(self.top, 'j.xml')
        sh([PY, '-m', 'pytest', '-c', '/opt/vp/pytest.ini', '--rootdir=' +
            self.dir, '-q', '-p', 'no:cacheprovider', '-o',
            'junit_family=xunit2', '--junitxml=' + out, 'brainstorm'],
           self.dir, self.env())
        import xml.etree.ElementTree as ET
        ok = set()
        for t in ET.parse(out).getroot().iter('testcase'):
            if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
                ok.add('%s::%s' % (t.get('classname'), t.get('name')))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        return [s for s in stable if s not in ok]

    def demo(self, bug):
        r = sh(['bash', os.path.join(VERIF, 'seeded', bug, 'demo.sh')],
               self.dir, dict(OMP_NUM_THREADS='1'), 300)
        return r.returncode, r.stdout.decode()[-400:]

    def apply(self, bug):
        d = os.path.join(VERIF, 'seeded', bug, 'patch.diff')
        subprocess.check_call(['git', 'apply', d], cwd=self.dir)
        if '.pyx' in open(d).read():
            return self.build()
        return True


def new(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns['BUGS']:
        d = os.path.join(VERIF, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        with Scratch() as s:
            for f, old, nw in b['edits']:
                p = os.path.join(s.dir, 'brainstorm', f)
                t = open(p).read()
                assert t.count(old) == 1, (b['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, nw))
            diff = sh(['git', 'diff'], s.dir).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip())
        json.dump(dict(property=b['prop'], needs=b['needs'],
                       what_it_breaks=b['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('created', b['id'])


def verify(bug):
    with Scratch() as s:
        a = s.demo(bug)
        built = s.apply(bug)
        missing = s.tests()
        b = s.demo(bug)
    ok = a[0] == 0 and b[0] != 0 and built and not missing
    print(bug, 'OK' if ok else 'BAD', 'clean=%s patched=%s built=%s lost=%d'
          % (a[0], b[0], built, len(missing)))
    if a[0]:
        print(a[1])
    print('   ', b[1].strip().split('\n')[-1][:300], missing[:5])
    return ok


def chk(bug, checks, tier='quick'):
    meta = json.load(open(os.path.join(VERIF, 'seeded', bug, 'meta.json')))
    with Scratch() as s:
        s.apply(bug)
        for c in checks or [meta['property']]:
            r = sh(['python3', 'run.py', c], VERIF,
                   dict(VMC_REPO=s.dir, VERIF_SEED='1', VERIF_TIER=tier),
                   3600)
            out = r.stdout.decode().strip().split('\n')
            what = [l for l in out if l.strip().startswith('what:')]
            print(bug, c, 'CAUGHT' if r.returncode == 1 else
                  'missed rc=%d' % r.returncode, (what or [''])[0][:200],
                  flush=True)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'new':
        for a in args:
            new(a)
    elif cmd == 'verify':
        bad = [b for b in args if not verify(b)]
        sys.exit(bool(bad))
    elif cmd == 'check':
        if len(args) > 1 and args[1] in os.listdir(
                os.path.join(VERIF, 'seeded')):
            for b in args:
                chk(b, [])
        else:
            chk(args[0], args[1:])
