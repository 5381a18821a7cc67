#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree, runs the cases in worker processes,
judges what the monitors and sanitizers reported, writes evidence/<id>.json.

  check.py ID [quick|thorough]      exit 0: held, 1: violated, 2: no answer
  check.py ID --replay FILE         runs the case of a replay file again, verbosely
"""
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
BUILD = os.path.join(VERIF, 'build')
DEADLINE = 840


def env_for(spec):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:'
                         'detect_stack_use_after_return=0:strict_string_checks=1:max_allocation_size_mb=2000:'
                         'allow_user_segv_handler=1')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=0'
    e['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=99:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0' + \
        ':suppressions=' + os.path.join(VERIF, 'tools', 'tsan.supp')
    e['ASAN_SYMBOLIZER_PATH'] = '/usr/bin/llvm-symbolizer'
    e['LC_ALL'] = 'C.UTF-8'
    e['TZ'] = 'UTC'
    e.update(spec.get('env', {}))
    if spec.get('templates'):
        e['VERIF_TEMPLATES'] = os.path.join(BUILD, 'templates')
    return e


def frame_key(block):
    """First functions of a stack that belong to /repo, without arguments, so that the key survives edits."""
    res = []
    for m in re.finditer(r'#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?) (/\S+?):\d+', block):
        fn, path = m.group(1), m.group(2)
        if '/repo/src/' in path:
            fn = strip_fn(fn)
            if fn not in res:
                res.append(fn)
        if len(res) == 1:
            break
    if not res:
        m = re.search(r'#0 (?:0x[0-9a-f]+ )?(?:in )?(\S+)', block)
        res = ['outside-repo:' + (m.group(1) if m else '?')]
    return '<-'.join(res)


def strip_fn(fn):
    fn = fn.replace('(anonymous namespace)', 'anon')
    depth, out = 0, ''
    for c in fn:
        if c in '(<':
            depth += 1
        elif c in ')>':
            depth -= 1
        elif depth == 0:
            out += c
    out = out.strip()
    return out.replace(' const', '').split(' ')[-1]


def judge_stderr(text):
    """Violations (key, detail) found in the stderr of a worker."""
    res = []
    for m in re.finditer(r'(\S*?:\d+:\d+: runtime error: .*?)\n((?:\s+#\d+ .*\n)*)', text):
        kind = re.sub(r'0x[0-9a-f]+|-?\d[\d.e+]*', 'N', m.group(1).split('runtime error: ')[1])
        kind = re.sub(r"type '[^']*'( \(aka '[^']*'\))?", 'type', kind)
        kind = kind[:60].strip().replace(' ', '-')
        res.append(('ub:' + kind + ':' + frame_key(m.group(2)), (m.group(1) + '\n' + m.group(2))[:3000]))
    m = re.search(r'ERROR: (?:Address|Thread)Sanitizer: (\S+).*', text)
    if m:
        block = text[m.start():]
        res.append(('asan:' + m.group(1) + ':' + frame_key(block.split('\n\n')[0]), block[:4000]))
    for m in re.finditer(r'WARNING: ThreadSanitizer: (.*?) \(pid=\d+\)(.*?)SUMMARY: ', text, re.S):
        block = m.group(2)
        stacks = [frame_key(b) for b in re.split(r'\n\s*\n', block) if '#0' in b][:2]
        res.append(('tsan:' + m.group(1).replace(' ', '-') + ':' + '|'.join(sorted(set(stacks))), m.group(0)[:5000]))
    return res


class Run:
    def __init__(self, cid, tier, seed):
        self.cid, self.tier, self.seed = cid, tier, seed
        self.spec = CHECKS[cid]
        self.t0 = time.time()
        self.viol = {}       # key -> [detail, case, part, count]
        self.counters, self.maxes = {}, {}
        self.hashes = set()
        self.samples = []
        self.notes = []
        self.lock = threading.Lock()
        self.incomplete = False

    def add(self, key, detail, case, part, n=1):
        with self.lock:
            v = self.viol.setdefault(key, [detail, case, part, 0])
            v[3] += n

    def absorb(self, path, part):
        try:
            lines = open(path, errors='replace').read().split('\n')
        except OSError:
            lines = []
        ended = False
        for l in lines:
            if not l:
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d['t'] == 'V':
                self.add(d['key'], d['detail'], d['case'], part)
            elif d['t'] == 'C':
                with self.lock:
                    for k, n in d['c'].items():
                        self.counters[k] = self.counters.get(k, 0) + n
                    for k, n in d['m'].items():
                        self.maxes[k] = max(self.maxes.get(k, 0), n)
            elif d['t'] == 'S':
                with self.lock:
                    if len(self.samples) < 6:
                        self.samples.append({'part': part['name'], 'case': d['case'], 'text': d['text']})
            elif d['t'] == 'E':
                ended = True
        try:
            b = open(path + '.hash', 'rb').read()
            with self.lock:
                self.hashes.update((part['name'], x) for x in struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
        except OSError:
            pass
        return ended

    def one(self, prog, part, first, end, step, out, extra, timeout):
        cmd = [prog, part['name'], str(self.seed), str(first), str(end), str(step), out, out + '.d'] + extra
        err = out + '.err'
        with open(err, 'wb') as ef:
            try:
                p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env_for(self.spec), cwd=self.dir)
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -99
        text = open(err, errors='replace').read()
        return rc, text

    def worker(self, prog, part, w, nw, cases, extra):
        first = w
        restarts = 0
        while first < cases:
            left = DEADLINE - (time.time() - self.t0)
            if left < 20:
                self.incomplete = True
                return
            out = os.path.join(self.dir, '%s-w%d-%d' % (part['name'], w, restarts))
            rc, text = self.one(prog, part, first, cases, nw, out, extra, left - 10)
            ended = self.absorb(out, part)
            try:
                case = int(open(out + '.case').read().split()[0])
            except (OSError, ValueError, IndexError):
                case = first
            for key, detail in judge_stderr(text):
                self.add(key, detail, case, part)
            if rc in (0, 99) and ended: # 99: ThreadSanitizer has reported something
                return
            if rc == -99:
                self.incomplete = True
                return
            if rc == 98:
                o2 = out + '-again'
                rc2, text2 = self.one(prog, part, case, case + 1, 1, o2, extra + ['limit=90'],
                                      max(30, DEADLINE - (time.time() - self.t0) - 10))
                if rc2 == 98:
                    self.add('hang', 'a case did not end within 90 s of CPU time', case, part)
                    self.hangs = getattr(self, 'hangs', 0) + 1
                else:
                    self.absorb(o2, part)
                    for key, detail in judge_stderr(text2):
                        self.add(key, detail, case, part)
                    if rc2 == 0:
                        with self.lock:
                            self.notes.append('case %d was slow' % case)
                if getattr(self, 'hangs', 0) >= 2:
                    return
            elif rc == 2:
                raise RuntimeError('harness refused to run: ' + text[-2000:])
            elif not re.search('ERROR: (Address|Thread)Sanitizer', text):
                self.add('crash:rc%d' % rc, text[-3000:], case, part)
            restarts += 1
            if restarts >= 5:
                with self.lock:
                    self.notes.append('worker %d stopped after %d crashes' % (w, restarts))
                return
            first = case + nw

    def main(self):
        spec = self.spec
        progs = {}
        for part in spec['parts']:
            b = part['build']
            progs[part['name']] = vbuild.build(b['name'], b['srcs'], b.get('flavor', 'asan'), b.get('group', 'all'),
                                               b.get('shim', True), b.get('libs', ''), b.get('flags', ''))
        if spec.get('templates'):
            vbuild.templates_dir()
        t_build = time.time() - self.t0
        base = os.path.join(BUILD, 'run')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=self.cid + '-', dir=base)
        try:
            extra = ['thorough'] if self.tier == 'thorough' else []
            extra += ['repo=' + vbuild.REPO]
            for part in spec['parts']:
                cases = part['thorough'] if self.tier == 'thorough' else part['quick']
                nw = min(part.get('workers', 8), cases)
                ths = []
                errs = []

                def go(w):
                    try:
                        self.worker(progs[part['name']], part, w, nw, cases, extra + part.get('args', []))
                    except Exception as e:
                        errs.append(e)
                for w in range(nw):
                    t = threading.Thread(target=go, args=(w,))
                    t.start()
                    ths.append(t)
                for t in ths:
                    t.join()
                if errs:
                    raise errs[0]
                if 'after' in spec:
                    spec['after'](self, part)
        finally:
            if not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(self.dir, ignore_errors=True)
        return self.report(t_build, progs)

    def report(self, t_build, progs):
        spec = self.spec
        known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)) if k['property'] == self.cid and k['status'] == 'known']
        new, seen = [], {}
        for key in sorted(self.viol):
            for k in known:
                if re.fullmatch(k['key'], key):
                    seen[k['key']] = k
                    break
            else:
                new.append(key)
        missing = [(c, n) for c, n in spec.get('require', {}).items() if self.counters.get(c, 0) < n]
        ev = {
            'property': self.cid, 'tier': self.tier, 'seed': self.seed, 'level': spec.get('level', 'exploration'),
            'coverage': {
                'evaluations': self.counters.get(spec.get('evaluations', 'cases'), 0),
                'distinct_nontrivial': len(self.hashes),
                'rule': spec['rule'],
                'samples': self.samples[:6],
                'observed': {k: self.counters[k] for k in sorted(self.counters)},
                'maxima': self.maxes,
                'sanitizers': sorted(set(vbuild.FLAVORS[p['build'].get('flavor', 'asan')] for p in spec['parts'])),
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - self.t0, 1),
            'violations': len(new),
        }
        ev['coverage']['build_s'] = round(t_build, 1)
        if self.notes:
            ev['coverage']['notes'] = self.notes[:20]
        if seen:
            ev['coverage']['known_findings'] = sorted(seen)
        if spec.get('level') == 'other':
            ev['coverage']['explanation'] = spec['rule']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.cid, k['what']))
        if new:
            rd = os.path.join(BUILD, 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, key in enumerate(new):
                detail, case, part, n = self.viol[key]
                path = os.path.join(rd, '%s-%d.json' % (self.cid, i))
                with open(path, 'w') as f:
                    json.dump({'property': self.cid, 'key': key, 'detail': detail, 'seed': self.seed, 'case': case,
                               'part': part['name'], 'tier': self.tier, 'times': n,
                               'how': 'python3 tools/check.py %s --replay %s' % (self.cid, path)}, f, indent=1)
                if i < 12:
                    print('VIOLATION property=%s replay=%s' % (self.cid, path))
                    print('  key=%s times=%d case=%s:%d' % (key, n, part['name'], case))
                    print('  ' + detail[:700].replace('\n', '\n  '))
            print('%d distinct violations' % len(new))
            return 1
        if self.incomplete:
            print('no answer: the run was cut short')
            return 2
        if missing:
            print('no answer: the monitors did not observe enough: %s' % missing)
            return 2
        print('%s: held; %d cases, %d distinct, %.0f s (build %.0f s)' % (
            self.cid, ev['coverage']['evaluations'], len(self.hashes), ev['wall_s'], t_build))
        return 0


def replay(cid, path):
    d = json.load(open(path))
    spec = CHECKS[cid]
    part = [p for p in spec['parts'] if p['name'] == d['part']][0]
    b = part['build']
    prog = vbuild.build(b['name'], b['srcs'], b.get('flavor', 'asan'), b.get('group', 'all'), b.get('shim', True),
                        b.get('libs', ''), b.get('flags', ''))
    if spec.get('templates'):
        vbuild.templates_dir()
    tmp = tempfile.mkdtemp(prefix='replay-', dir=BUILD)
    cmd = [prog, part['name'], str(d['seed']), str(d['case']), str(d['case'] + 1), '1', tmp + '/out', tmp + '/d',
           'verbose', 'repo=' + vbuild.REPO] + part.get('args', [])
    if d['tier'] == 'thorough':
        cmd.append('thorough')
    r = subprocess.run(cmd, env=env_for(spec), cwd=tmp)
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode


if __name__ == '__main__':
    cid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        sys.exit(replay(cid, sys.argv[3]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        rc = Run(cid, tier, seed).main()
    except RuntimeError as e:
        print('no answer: ' + str(e))
        rc = 2
    sys.exit(rc)
