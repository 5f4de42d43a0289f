"""Witness programs: small source texts that the compiler must accept or must reject when they use the crate under
analysis. Nothing is ever linked or run: the crate and the witnesses are only type-checked (metadata is emitted)."""
import glob, json, os, subprocess, tempfile
from common import *


def feature_names():
    """the crate's optional features: (declared, implied by an optional dependency only)"""
    with LockFile():
        r = subprocess.run(['cargo', 'metadata', '--offline', '--no-deps', '--format-version', '1'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=base_env(), cwd=REPO)
    if r.returncode: raise Broken('cargo metadata fails:\n' + r.stderr[-2000:])
    for p in json.loads(r.stdout)['packages']:
        if p['name'] == 'liso':
            fs = p['features']
            implied = [f for f, v in fs.items() if v == ['dep:' + f]]
            return sorted(f for f in fs if f != 'default' and f not in implied), sorted(implied), fs.get('default', [])
    raise Broken('no package called liso')


class Crate:
    """the crate type-checked with a set of features, as other crates see it"""

    def __init__(self, feats, slot=0):
        self.feats = sorted(feats)
        self.tgt = cargo_target('wit%d' % slot)
        with Lock('wit%d' % slot), LockFile():
            # cargo decides by time stamps whether a build is current: forget what it knows about this crate
            if os.path.isdir(self.tgt): subprocess.run(['find', self.tgt, '-maxdepth', '4', '-name', '*liso*', '-prune', '-exec', 'rm', '-rf', '{}', '+'])
            r = subprocess.run(['cargo', 'check', '--offline', '--lib', '-p', 'liso', '--no-default-features', '--features', ','.join(self.feats),
                                '--target-dir', self.tgt, '--message-format=json'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=base_env(), cwd=REPO)
        self.errors, self.rmeta = [], None
        for l in r.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error': self.errors.append(brief(m['message']))
            if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'liso' and 'lib' in m['target']['kind']:
                for f in m['filenames']:
                    if f.endswith('.rmeta'): self.rmeta = f
        self.ok = r.returncode == 0 and self.rmeta is not None
        if not self.ok and not self.errors: self.errors = [r.stderr[-1500:]]

    def accepts(self, text, name='witness', edition='2021'):
        """(accepted, [(code, message, line of the witness)])"""
        with tempfile.TemporaryDirectory(prefix='witness', dir=BUILD) as t:
            p = os.path.join(t, name + '.rs')
            open(p, 'w').write(text)
            r = subprocess.run(['rustc', '--edition', edition, '--crate-type', 'lib', '--crate-name', 'witness', '--emit', 'metadata', '-A', 'warnings', '--error-format=json',
                                '-L', 'dependency=' + os.path.join(self.tgt, 'debug', 'deps'), '--extern', 'liso=' + self.rmeta, '--out-dir', t, p],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=base_env(), cwd=REPO)
            errs = []
            for l in r.stderr.splitlines():
                try: m = json.loads(l)
                except ValueError: continue
                if m.get('level') == 'error' and m.get('spans'):
                    errs.append(((m.get('code') or {}).get('code') or '', m['message'], m['spans'][0]['line_start']))
            return r.returncode == 0, errs or ([] if r.returncode == 0 else [('', r.stderr[-400:], 0)])


def brief(m):
    sp = m['spans'][0] if m.get('spans') else None
    return '%s%s%s' % ((m.get('code') or {}).get('code', '') + ': ' if m.get('code') else '', m['message'].split('\n')[0], ' at %s:%s' % (sp['file_name'], sp['line_start']) if sp else '')


def dump_witness(feat, text):
    """the type-checked program of a witness that uses the crate as built for the dump of this feature set (not its bodies)"""
    from mirp import Dump
    exe = build_driver()
    for attempt in (0, 1):
        d = make_dump(feat)
        with Lock('dump-' + feat):
            tgt = cargo_target(feat)
            metas = sorted(glob.glob(os.path.join(tgt, 'debug', '**', 'libliso-*.rmeta'), recursive=True), key=os.path.getmtime)
            if not metas or not os.path.exists(d):
                if attempt: raise Broken('no metadata of the crate is left by the build with ' + feat)
                if os.path.exists(d): os.unlink(d)
                continue
            dirs = sorted({os.path.dirname(p) for x in ('rmeta', 'rlib', 'so') for p in glob.glob(os.path.join(tgt, 'debug', '**', '*.' + x), recursive=True)})
            with tempfile.TemporaryDirectory(prefix='witness', dir=BUILD) as t:
                p, out = os.path.join(t, 'witness.rs'), os.path.join(t, 'witness.json')
                open(p, 'w').write(text)
                e = base_env()
                e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
                e.update(MIRDUMP_CRATE='witness', MIRDUMP_OUT=out, MIRDUMP_STD=STD, CARGO_PRIMARY_PACKAGE='1')
                r = sh([exe, 'rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'witness', '--emit', 'metadata', '-A', 'warnings', '--sysroot', sysroot(),
                        '--extern', 'liso=' + metas[-1], '--out-dir', t] + [x for y in dirs for x in ('-L', 'dependency=' + y)] + [p], env=e, cwd=t)
                if r.returncode or not os.path.exists(out): return None, r.stdout[-3000:]
                w = Dump(out)
                w.feat = 'witness'
                return w, ''
