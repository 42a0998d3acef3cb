"""Runs the exploration harnesses, confirms what they report, writes the
evidence and the outcome of a check."""

import array
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

from . import build as B

VERIF = B.VERIF
NPROC = min(8, os.cpu_count() or 8)


class Check:

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        # Total time a check may spend exploring
        self.limit = 840 if not self.thorough else 4 * 3600
        self.stats, self.samples, self.states = {}, [], 0
        self.phases, self.violations, self.known = [], [], []
        self.notes, self.assumptions = [], []
        self.transitions = self.validated = 0
        self.capped = False
        self.work = os.path.join(B.BUILD, 'run', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.findings = load_findings(prop)

    def left(self):
        return self.limit - (time.time() - self.t0)

    # --- Reports ---

    def violation(self, text, replay):
        for pat, desc in self.findings:
            if re.search(pat, text):
                if desc not in self.known:
                    self.known.append(desc)
                return
        self.violations.append((text, replay))

    def note(self, text):
        self.notes.append(text)

    # --- Harness runs ---

    def explore(self, name, variant='prod', phase=None, deadline=None,
                rule=None, args=(), nproc=NPROC, env=None, **kw):
        """Build and run a harness on all shards.
        `rule(stats, viols)` may filter the candidates"""
        phase = phase or '%s-%s' % (name, variant)
        if self.violations and self.left() < self.limit - 150:
            self.note('%s: skipped, decided already' % phase)
            return {}
        try:
            exe = B.harness(name, variant, **kw)
        except B.BuildError as e:
            self.note('%s: not built, skipped: %s' % (phase, str(e)[-600:]))
            return {}
        return self.run(exe, phase, deadline, rule, args, nproc, env)

    def run(self, exe, phase, deadline=None, rule=None, args=(),
            nproc=NPROC, env=None):
        deadline = min(deadline or 1e9, max(self.left() - 60, 30))
        d = os.path.join(self.work, phase)
        os.makedirs(d)
        e = dict(B.ENV)
        e.update({'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0'
                  ':allocator_may_return_null=1:detect_stack_use_after_return=0',
                  'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
                  'MSAN_OPTIONS': 'exitcode=99'})
        e.update(env or {})

        def cmd(out, shard, item=None):
            c = [exe, out, str(shard), self.tier, str(self.seed),
                 str(int(deadline))]
            return c + ([str(item)] if item is not None else []) + list(args)

        t0 = time.time()
        procs = []
        for s in range(nproc):
            err = open(os.path.join(d, 'err.%d' % s), 'wb')
            procs.append(subprocess.Popen(cmd(d, s), stdout=err, stderr=err,
                                          env=e))
        rcs = []
        for p in procs:
            try:
                rcs.append(p.wait(max(1, deadline + 120 - (time.time() - t0))))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rcs.append('timeout')

        stats, viols, crashes = {}, [], []
        for s in range(nproc):
            ended = self.parse(os.path.join(d, 'out.%d' % s), stats, viols)
            if rcs[s] not in (0, 3) or not ended:
                tr = read_trace(os.path.join(d, 'trace.%d' % s))
                err = tail(os.path.join(d, 'err.%d' % s))
                crashes.append((rcs[s], tr, err))

        states = merge_states(d, nproc)
        self.states += states
        self.transitions += stats.get('transitions', 0)
        self.validated += stats.get('validated', 0)
        self.capped |= bool(stats.get('capped'))
        for k, v in stats.items():
            self.stats[phase + '.' + k] = v
        self.stats[phase + '.states'] = states
        self.phases.append({'phase': phase, 'states': states,
                            'wall_s': round(time.time() - t0, 1), **stats})

        cand = rule(stats, viols) if rule else viols
        seen = set()
        for item, text in cand:
            if item in seen or len(seen) >= 4:
                continue
            seen.add(item)
            self.confirm(phase, exe, cmd, e, item, text, d, rule)
        for rc, tr, err in crashes[:3]:
            m = re.search(r'item=(-?\d+)', tr)
            item = int(m.group(1)) if m else -1
            text = 'abnormal end (%s) of the run: %s' % (rc, err)
            self.confirm(phase, exe, cmd, e, item, text, d, None, tr)
        return stats

    def confirm(self, phase, exe, cmd, env, item, text, d, rule, tr=''):
        """Run the item again alone: what does not happen again is not
        reported"""
        if self.violations and self.left() < self.limit - 150:
            return                  # decided already, late
        if item < 0:
            self.note('%s: no item to run again: %s' % (phase, text[:500]))
            if 'Sanitizer' in text or 'runtime error' in text:
                self.violation(text, {'phase': phase, 'trace': tr})
            return
        for k in range(2):
            out = os.path.join(d, 'confirm.%d.%d' % (item, k))
            os.makedirs(out, exist_ok=True)
            err = os.path.join(out, 'err.0')
            with open(err, 'wb') as f:
                try:
                    rc = subprocess.run(cmd(out, 0, item), stdout=f, stderr=f,
                                        env=env, timeout=max(
                                            60, min(400, self.left()))).returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
            stats, viols = {}, []
            ended = self.parse(os.path.join(out, 'out.0'), stats, viols)
            if rc == 0 and ended:
                continue
            if viols:
                text = viols[0][1]
            elif rc not in (0, 3):
                text = 'abnormal end (%s): %s' % (rc, tail(err))
                tr = read_trace(os.path.join(out, 'trace.0')) or tr
            elif rc == 0:
                continue
            self.violation(text, {
                'phase': phase, 'item': item, 'trace': tr,
                'env': {k: v for k, v in env.items()
                        if B.ENV.get(k) != v},
                'command': [os.path.relpath(exe, VERIF)] +
                cmd('OUTDIR', 0, item)[2:]})
            return
        self.note('%s: item %d, not confirmed: %s' % (phase, item, text[:500]))

    def parse(self, path, stats, viols):
        try:
            lines = open(path, errors='replace').read().splitlines()
        except OSError:
            return False
        for line in lines:
            if line.startswith('STAT '):
                _, k, v = line.split()
                stats[k] = stats.get(k, 0) + int(v)
            elif line.startswith('SAMPLE '):
                if len(self.samples) < 24:
                    self.samples.append(line[7:400])
            elif line.startswith('VIOL '):
                m = re.match(r'VIOL item=(-?\d+) (.*)', line)
                viols.append((int(m.group(1)), m.group(2)))
        return bool(lines) and lines[-1] == 'END'

    # --- Python side explorations ---

    def count(self, states=0, transitions=0, validated=0):
        self.states += states
        self.transitions += transitions
        self.validated += validated

    # --- End ---

    def finish(self):
        viol = []
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, (text, replay) in enumerate(self.violations):
            path = os.path.join(rdir, '%s-%d.json' % (self.prop, i))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'tier': self.tier,
                           'seed': self.seed, 'what': text,
                           'replay': replay}, f, indent=1)
            viol.append((text, path))

        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.validated,
                'samples': self.samples, 'exhaustive': not self.capped,
                'phases': self.phases, 'notes': self.notes},
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 1),
            'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)

        print('%s %s: %d states, %d transitions, %d traces, %.0f s%s' % (
            self.prop, self.tier, self.states, self.transitions,
            self.validated, time.time() - self.t0,
            ' (capped by time)' if self.capped else ''))
        for n in self.notes:
            print('note: ' + n)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for text, path in viol:
            print('  ' + text[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.stdout.flush()
        return 1 if viol else 0


def load_findings(prop):
    """Lines 'property=ID match=/regex/ description'; 'fixed:' ones are only
    a record"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'property=(\S+) match=/(.*)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def read_trace(path):
    try:
        return open(path, 'rb').read().split(b'\0')[0].decode(
            errors='replace')
    except OSError:
        return ''


def tail(path, n=1800):
    try:
        s = open(path, 'rb').read().decode(errors='replace')
    except OSError:
        return ''
    i = s.find('ERROR: ')
    if i < 0:
        i = s.find('runtime error')
        i = max(0, s.rfind('\n', 0, i)) if i > 0 else max(0, len(s) - n)
    return ' / '.join(s[i:i + n].split('\n'))


def merge_states(d, nproc):
    seen = set()
    for s in range(nproc):
        p = os.path.join(d, 'states.%d' % s)
        if os.path.exists(p):
            a = array.array('Q')
            with open(p, 'rb') as f:
                a.frombytes(f.read())
            seen.update(a)
            os.remove(p)
    return len(seen)
