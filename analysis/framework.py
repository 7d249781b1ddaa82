"""Shared plumbing of the checks: source dump, evidence, known findings, verdict."""
import atexit
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')


class AnchorMissing(Exception):
    """Something the rule is about is not in the source any more."""


class Result:
    def __init__(self):
        self.violations = []        # dicts: key, where, message
        self.coverage = {}
        self.assumptions = []

    def bad(self, key, where, message):
        if not any(v['key'] == key for v in self.violations):
            self.violations.append({'key': key, 'where': where, 'message': message})


_cache = {}


def mir_program(crates=('rubymap', 'hashbrown', 'ruby_traits')):
    """Type-check /repo's crates now and load the compiler's MIR of `crates`."""
    sys.path.insert(0, HERE)
    from mir import Program
    key = tuple(crates)
    if 'dump' not in _cache:
        os.makedirs(WORK, exist_ok=True)
        out = tempfile.mkdtemp(prefix='mir.', dir=WORK)
        atexit.register(shutil.rmtree, out, ignore_errors=True)
        p = subprocess.run(['bash', os.path.join(VERIF, 'tools', 'mir.sh'), out], stdout=sys.stderr)
        if p.returncode:
            raise RuntimeError('MIR dump failed')
        _cache['dump'] = out
    if key not in _cache:
        _cache[key] = Program(_cache['dump'], list(crates))
    return _cache[key]


def known_findings(prop):
    """{key: description} of accepted findings of this property."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def finish(prop, res, level, t0):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    known = known_findings(prop)
    live = []
    for v in res.violations:
        if v['key'] in known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[v['key']], v['where']))
        else:
            live.append(v)
    ev = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    doc = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
           'coverage': res.coverage, 'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2),
           'violations': len(live)}
    tmp = os.path.join(ev, '.%s.tmp' % prop)
    with open(tmp, 'w') as fh:
        json.dump(doc, fh, indent=1, sort_keys=True)
        fh.write('\n')
    os.replace(tmp, os.path.join(ev, prop + '.json'))
    for v in live:
        h = hashlib.sha1(v['key'].encode()).hexdigest()[:10]
        path = os.path.join(ev, 'replay', '%s-%s.txt' % (prop, h))
        with open(path, 'w') as fh:
            fh.write('property: %s\nkey: %s\nwhere: %s\n%s\n\nre-decide with: python3 %s %s\n'
                     % (prop, v['key'], v['where'], v['message'], os.path.join(HERE, 'check.py'), prop))
        print('%s: %s [%s]' % (v['where'], v['message'], v['key']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if not live:
        print('OK property=%s (%.1f s)' % (prop, time.time() - t0))
    return 1 if live else 0
