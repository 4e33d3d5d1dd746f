"""Builds and runs the executable-contract harness (bounded stand-in and witness search) against /repo's working tree."""
import glob, os, shutil, subprocess, tempfile, time, concurrent.futures as cf
from .extract import REPO
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = '/usr/bin/g++'
FLAGS = ['-std=c++14', '-fext-numeric-literals', '-O1', '-g1', '-fno-access-control', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=1:allocator_may_return_null=0', UBSAN_OPTIONS='print_stacktrace=0:abort_on_error=1')

class Harness:
    def __init__(self, prop, edition='src', flags=None):
        self.prop, self.edition = prop, edition
        self.dir = tempfile.mkdtemp(prefix='vfh_')
        self.bin = None; self.err = None
        self.flags = FLAGS if flags is None else flags
        self.time = 0
    def build(self):
        t0 = time.time()
        src = os.path.join(HERE, 'harness', self.prop + '.cpp')
        inc = REPO + ('/src' if self.edition == 'src' else '/single/include')
        jobs = [(src, os.path.join(self.dir, 'h.o'))]
        if self.edition == 'src':
            for f in sorted(glob.glob(REPO + '/src/tomsolver/*.cpp')):
                jobs.append((f, os.path.join(self.dir, os.path.basename(f) + '.o')))
        def one(j):
            r = subprocess.run([CXX] + self.flags + ['-I', inc, '-I', HERE + '/harness', '-c', j[0], '-o', j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return r.returncode, r.stdout.decode('utf-8', 'replace')
        with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, jobs))
        bad = [o for c, o in rs if c]
        if bad: self.err = bad[0][:3000]; return self
        out = os.path.join(self.dir, 'h')
        r = subprocess.run([CXX] + self.flags + [j[1] for j in jobs] + ['-o', out, '-lpthread', '-lquadmath'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: self.err = r.stdout.decode('utf-8', 'replace')[:3000]; return self
        self.bin = out
        self.time = time.time() - t0
        return self
    def run(self, seed, tlimit, extra=()):
        """dict(status=ok|fail|error, what, case, cases, distinct, samples)"""
        cb = os.path.join(self.dir, 'case')
        try:
            r = subprocess.run([self.bin, str(seed), str(tlimit), cb] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=tlimit * 6 + 120, cwd=self.dir)
            out = r.stdout.decode('utf-8', 'replace'); err = r.stderr.decode('utf-8', 'replace'); rc = r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode('utf-8', 'replace'); err = 'no answer (endless loop?)'; rc = -99
        res = dict(rc=rc, seed=seed, tlimit=tlimit, cases=0, distinct=0, samples=[], out=out[-4000:], err=err[-4000:])
        try: res['case'] = open(cb, 'rb').read().split(b'\0')[0].decode('utf-8', 'replace')
        except OSError: res['case'] = ''
        for l in out.splitlines():
            if l.startswith('CASES '):
                w = l.split(); res['cases'] = int(w[1]); res['distinct'] = int(w[3])
            if l.startswith('SAMPLE '): res['samples'].append(l[7:])
            if l.startswith('DIGEST '): res['digest'] = l[7:]
        if rc == 0: res['status'] = 'ok'
        else:
            res['status'] = 'fail'
            f = [l[5:] for l in out.splitlines() if l.startswith('FAIL ')]
            if f: res['what'] = f[0]
            else:
                k = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or 'terminate' in l or 'no answer' in l]
                res['what'] = ('crash: ' + (k[0] if k else 'exit code %d' % rc)).strip()
        return res
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
