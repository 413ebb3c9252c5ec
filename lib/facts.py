"""Loading of the MIR facts written by /verif/driver."""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')

class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d['crate']
        self.tys = d['tys']
        self.adts = d['adts']
        self.impls = d['impls']
        self.fns = {}
        self.list = d['fns']
        for f in d['fns']:
            f['tys'] = self.tys
            self.fns[f['key']] = f

def extract(out=None, repo_src='/repo'):
    """Run the extractor over /repo's current tree. Returns the facts directory."""
    out = out or os.path.join(CACHE, 'facts')
    os.makedirs(out, exist_ok=True)
    for n in os.listdir(out):
        if n.endswith('.json'):
            os.unlink(os.path.join(out, n))
    import shutil
    for attempt in (0, 1):
        p = subprocess.run(['bash', os.path.join(VERIF, 'bin', 'extract.sh'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        missing = [n for n in NAMES if not os.path.exists(os.path.join(out, n + '.json'))]
        if p.returncode == 0 and not missing:
            return out
        shutil.rmtree(os.path.join(CACHE, 'facts-target'), ignore_errors=True)
    raise RuntimeError('fact extraction failed (missing %s):\n%s' % (missing, p.stdout[-4000:]))

NAMES = ['licensing', 'licensing-bin', 'logging_config', 'parsa', 'parsa_python', 'parsa_python_cst', 'test_utils', 'utils', 'vfs']

def load(name, out=None):
    out = out or os.path.join(CACHE, 'facts')
    return Crate(os.path.join(out, name + '.json'))
