"""Lemmas proved in Lean 4 (lean/*.lean), checked by Lean's kernel on every run."""
import os, re, subprocess, shutil
from .core import Unsupported
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean')
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}
def lean(fname):
    src = open(os.path.join(HERE, fname)).read()
    want = re.findall(r'^#print axioms (\S+)', src, re.M)
    def t(tu, ctx):
        exe = shutil.which('lean')
        if not exe: raise Unsupported('Lean is not installed')
        try: r = subprocess.run([exe, os.path.join(HERE, fname)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        except subprocess.TimeoutExpired: raise Unsupported('Lean: time limit')
        out = r.stdout.decode(); got = {}
        for m in re.finditer(r"'([^']+)' depends on axioms: \[([^\]]*)\]", out): got[m.group(1)] = set(x.strip() for x in m.group(2).split(','))
        for m in re.finditer(r"'([^']+)' does not depend on any axioms", out): got[m.group(1)] = set()
        for w in want:
            if r.returncode or w not in got or not got[w] <= AXIOMS: raise Unsupported('Lean does not accept the lemma %s' % w)
            ctx.oblige('lean:' + w, True)
    t.__doc__ = 'lemmas of lean/%s, accepted by Lean without sorry' % fname
    t.lean = True
    return t
