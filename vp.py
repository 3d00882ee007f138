#!/usr/bin/env python3
"""Driver: decides properties from the verifier's verdict on every obligation.

  vp.py check PROP [--tier quick|thorough]     run the check of one property
  vp.py unit UNIT [...]                        run units by name (development)
  vp.py list
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, os.path.join(HERE, 'units'))
import loopcut  # noqa: E402
from registry import UNITS, ASSUME, level  # noqa: E402

REPO = os.environ.get('VP_REPO', '/repo')
EVID = os.environ.get('VP_EVIDENCE', os.path.join(HERE, 'evidence'))
CHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check',
          '--div-by-zero-check', '--unwinding-assertions',
          '--no-malloc-may-fail', '--drop-unused-functions']
NPROC = int(os.environ.get('VP_JOBS', '8'))
sem = threading.Semaphore(NPROC)


class ToolError(Exception):
    pass


def run(cmd, timeout, cwd=None, env=None):
    with sem:
        t0 = time.time()
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, cwd=cwd, env=env,
                                 start_new_session=True)
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out.decode('utf8', 'replace'), \
                err.decode('utf8', 'replace'), time.time() - t0
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.communicate()
            return None, '', 'timeout', time.time() - t0


class Unit:
    def __init__(self, spec, tier, work):
        self.s = dict(spec)
        if tier == 'thorough':
            self.s.update(spec.get('thorough', {}))
        self.name = spec['name']
        self.work = os.path.join(work, self.name)
        os.makedirs(os.path.join(self.work, 'cut', 'repo'), exist_ok=True)
        base = os.path.join(self.work, 'base')
        os.makedirs(base, exist_ok=True)
        link = os.path.join(base, 'repo')
        if not os.path.islink(link):
            os.symlink(os.path.join(REPO, 'src'), link)
        self.solver_s = 0.0
        self.src = os.path.join(HERE, 'units', self.s['file'])
        self.timeout = self.s.get('timeout', 280)
        self.notes = []

    def flags(self):
        return ['-I' + os.path.join(self.work, 'cut'),
                '-I' + os.path.join(self.work, 'base'),
                '-I' + os.path.join(HERE, 'lib'),
                '-I' + os.path.join(HERE, 'contracts'),
                '-I' + os.path.join(REPO, 'include'),
                '-I' + os.path.join(REPO, 'src'),
                '-D_GNU_SOURCE'] + self.s.get('defs', []) + self.grab()

    def compile(self, proof=False):
        gb = os.path.join(self.work, 'a.gb')
        cmd = ['goto-cc', '-DVP_CBMC', '-D__NO_CTYPE', '-D__NO_INLINE__'] + \
            (['-DVP_PROOF'] if proof else []) + self.flags() + \
            ['--function', self.s['entry'], self.src, '-o', gb]
        rc, out, err, _ = run(cmd, 120)
        if rc != 0:
            raise ToolError('goto-cc failed: ' + (err + out)[-2000:])
        if self.s.get('replace'):
            # calls replaced by the callee's contract (same source file)
            gb2 = os.path.join(self.work, 'r.gb')
            cmd = ['goto-instrument']
            for f, c in self.s['replace']:
                cmd += ['--replace-calls', '%s:%s' % (f, c)]
            rc, out, err, _ = run(cmd + [gb, gb2], 120)
            if rc != 0:
                raise ToolError('replace-calls failed: ' + (err + out)[-1000:])
            return gb2
        return gb

    def loops(self, gb, unwind):
        """loops of the harness and contracts (constant bounds) get a bound
        of their own; loops of the repository get the unit's bound"""
        rc, out, err, _ = run(['goto-instrument', '--show-loops', '--json-ui',
                               gb], 60)
        res = []
        try:
            for m in json.loads(out):
                for l in m.get('loops', []):
                    f = l.get('sourceLocation', {}).get('file', '')
                    if f.startswith(HERE):
                        res.append('%s:%d' % (l['name'],
                                              self.s.get('hunwind', 34)))
        except ValueError:
            pass
        return res

    def cbmc(self, gb, extra=(), unwind=None, timeout=None):
        unwind = unwind or self.s.get('unwind', 6)
        cmd = ['cbmc', gb, '--json-ui', '--unwind', str(unwind)] + CHECKS + \
            ['--object-bits', str(self.s.get('obits', 9))] + \
            self.s.get('cbmc', []) + list(extra)
        us = ['strcmp.0:18', 'strlen.0:18'] + self.loops(gb, unwind) + \
            self.s.get('unwindset', [])
        cmd += ['--unwindset', ','.join(us)]
        rc, out, err, dt = run(cmd, timeout or self.timeout)
        self.solver_s += dt
        if rc is None:
            raise ToolError('timeout after %ds' % (timeout or self.timeout))
        try:
            js = json.loads(out)
        except ValueError:
            raise ToolError('cbmc output: ' + (out[-500:] + err[-500:]))
        res = None
        for m in js:
            if 'result' in m:
                res = m['result']
        if res is None:
            msgs = [m.get('messageText', '') for m in js
                    if m.get('messageType') == 'ERROR']
            raise ToolError('cbmc: rc=%s %s' % (rc, ' '.join(msgs)[-800:]))
        self.last_cmd = ' '.join(cmd)
        return res

    # -- classification ----------------------------------------------------
    def grab(self):
        """Macros naming private types of the source, found by a pattern in the
        current source (undefined when not found: the harness then falls back
        to untyped memory, which is only slower)."""
        out = []
        for macro, src, rx in self.s.get('grab', ()):
            m = re.search(rx, open(os.path.join(REPO, 'src', src)).read())
            if m:
                out.append('-D%s=%s' % (macro, m.group(1)))
        return out

    @staticmethod
    def classify(res):
        r = {'cover': [], 'inv': [], 'unwind': [], 'nobody': [], 'obl': [],
             'need': []}
        for p in res:
            d = p.get('description', '')
            pid = p.get('property', '')
            if d.startswith('vp_cover:'):
                r['cover'].append(p)
            elif d.startswith('vp_coveropt:'):
                pass
            elif d.startswith('vp_need:'):
                r['need'].append(p)
            elif d.startswith('vp_inv:'):
                r['inv'].append(p)
            elif '.unwind.' in pid or '.recursion' in pid or \
                    d.startswith('unwinding assertion') or \
                    'recursion unwinding' in d:
                r['unwind'].append(p)
            elif '.no-body.' in pid or d.startswith('no body for'):
                r['nobody'].append(p)
            else:
                r['obl'].append(p)
        return r

    # -- modes -------------------------------------------------------------
    def run_bounded(self, unwind=None, extra=()):
        gb = self.compile()
        return gb, self.classify(self.cbmc(gb, unwind=unwind, extra=extra))

    def run_loop(self):
        """Houdini: largest inductive subset of the candidate invariants."""
        s = self.s
        srcs = s['cut']
        loops, texts, cands = {}, {}, {}
        for f in srcs:
            path = os.path.join(REPO, 'src', f)
            fl = ['-I' + os.path.join(REPO, 'include'), '-D_GNU_SOURCE',
                  '-I' + os.path.join(REPO, 'src')]
            text, lps = loopcut.find_loops(path, fl)
            text_cut = text.find('LCOV_EXCL_START')
            lps = [l for l in lps if text_cut < 0 or l.begin < text_cut]
            loops[f], texts[f] = lps, text
            cands[f] = {}
            for lp in lps:
                if lp.heap and not s.get('heap_ok'):
                    continue
                key = '%s.%d' % (lp.func, lp.idx)
                cands[f][key] = loopcut.candidates(
                    lp, s.get('ghosts', []), s.get('templates', []),
                    s.get('invs', []))
        self.rounds = 0
        t0 = time.time()
        extra_unknown = None
        while True:
            self.rounds += 1
            cut = []
            for f in srcs:
                t, c = loopcut.rewrite(texts[f], loops[f], cands[f],
                                       s.get('heap_ok'), s.get('facts', ()))
                cut += c
                with open(os.path.join(self.work, 'cut', 'repo', f), 'w') as o:
                    o.write(t)
            gb = self.compile(proof=True)
            res = self.classify(self.cbmc(gb))
            bad = set()
            for p in res['inv']:
                if p['status'] != 'SUCCESS':
                    _, _, key, name = p['description'].split(':', 3)
                    bad.add((key, name))
            if not bad:
                break
            for f in srcs:
                for key in cands[f]:
                    cands[f][key] = [c for c in cands[f][key]
                                     if (key, c[0]) not in bad]
            if time.time() - t0 > s.get('houdini_s', 300):
                raise ToolError('invariant inference did not converge in time')
        self.cut = cut
        self.invariants = {k: [e for _, e in v] for f in srcs
                           for k, v in cands[f].items()
                           if any(p['description'].split(':')[2] == k
                                  for p in res['inv'])}
        shutil.rmtree(os.path.join(self.work, 'cut', 'repo'))
        os.makedirs(os.path.join(self.work, 'cut', 'repo'))
        return gb, res

    # -- counterexamples ---------------------------------------------------
    def trace_values(self, gb, pid, unwind=None):
        sel = [] if ('.unwind.' in pid or 'recursion' in pid) else \
            ['--property', pid]
        res = self.cbmc(gb, sel + ['--trace'], unwind=unwind)
        for p in res:
            if p.get('property') == pid and p.get('status') == 'FAILURE':
                vals = []
                for st in p.get('trace', []):
                    if st.get('stepType') == 'assignment' and \
                            st.get('lhs') == 'vp_nd_val' and \
                            not st.get('hidden') and \
                            st.get('value', {}).get('binary') is not None:
                        vals.append(int(st['value']['binary'], 2))
                return vals, p
        return None, None

    def native(self, vals):
        binp = os.path.join(self.work, 'replay')
        if not os.path.exists(binp):
            cc = ['gcc', '-g', '-O0', '-w', '-fsanitize=address,undefined',
                  '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment',
                  '-no-pie', '-fno-pie', '-ffunction-sections',
                  '-Wl,--gc-sections',
                  '-Wl,--unresolved-symbols=ignore-all', '-DVP_NATIVE',
                  '-DVP_ENTRY=' + self.s['entry']] + self.flags()
            src = self.src
            if self.s.get('replace'):
                # calls replaced by contracts, in the assembly
                src = os.path.join(self.work, 'u.s')
                rc, out, err, _ = run(cc + ['-S', self.src, '-o', src], 120)
                if rc != 0:
                    return 'nobuild', err[-1500:]
                asm = open(src).read()
                for f, c in self.s['replace']:
                    asm = re.sub(r'(?m)^(\s+(?:call|jmp)\s+)%s(@PLT)?$' % f,
                                 r'\g<1>%s' % c, asm)
                open(src, 'w').write(asm)
            cmd = cc + [src, os.path.join(HERE, 'lib', 'vp_native.c'), '-o',
                        binp]
            rc, out, err, _ = run(cmd, 120)
            if rc != 0:
                return 'nobuild', err[-1500:]
        vf = os.path.join(self.work, 'values')
        with open(vf, 'w') as o:
            o.write('\n'.join(str(v) for v in vals) + '\n')
        env = dict(os.environ, VP_VALUES=vf,
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0',
                   UBSAN_OPTIONS='print_stacktrace=0')
        rc, out, err, _ = run(['bash', '-c', 'ulimit -c 0; exec ' + binp], 20,
                              env=env)
        if rc is None:
            return 'hang', 'did not terminate within 20 s'
        if rc == 0:
            return 'ok', err[-300:]
        if rc == 77:
            return 'assume', err[-300:]
        return 'fail', err[-1500:]

    def small_replay(self, p):
        """a counterexample small enough to run"""
        defs = self.s.get('defs', [])
        try:
            self.s['defs'] = defs + self.s['small']
            gb = self.compile()
            vals, tp = self.trace_values(gb, p['property'])
            if vals is None:
                return None
            b = os.path.join(self.work, 'replay')
            if os.path.exists(b):
                os.unlink(b)
            verdict, text = self.native(vals)
            return {'property': p['property'], 'description': p['description'],
                    'location': p.get('sourceLocation', {}), 'values': vals,
                    'native': verdict, 'native_output': text, 'unwind': False}
        finally:
            self.s['defs'] = defs

    def decide(self, kind='bounded'):
        """-> dict(status, ...)"""
        t0 = time.time()
        out = {'unit': self.name, 'mode': self.s['mode'],
               'functions': self.s.get('functions', []),
               'bound': self.s.get('bound')}
        try:
            if kind == 'loop':
                gb, res = self.run_loop()
                out['invariants'] = self.invariants
                out['houdini_rounds'] = self.rounds
            else:
                gb, res = self.run_bounded()
            out.update(self.judge(gb, res, kind))
        except ToolError as e:
            out['status'] = 'error'
            out['error'] = str(e)
        except Exception as e:                       # tool trouble, not a verdict
            out['status'] = 'error'
            out['error'] = 'internal: %r' % e
        out['solver_s'] = round(self.solver_s, 2)
        out['wall_s'] = round(time.time() - t0, 2)
        out['cmd'] = getattr(self, 'last_cmd', '')
        return out

    def judge(self, gb, res, kind):
        o = {}
        obl = res['obl'] + res['inv']
        o['obligations'] = len(obl) + len(res['unwind'])
        bad = [p for p in res['obl'] if p['status'] == 'FAILURE']
        unw = [p for p in res['unwind'] if p['status'] != 'SUCCESS']
        unk = [p for p in obl if p['status'] not in ('SUCCESS', 'FAILURE')]
        nob = [p for p in res['nobody'] if p['status'] != 'SUCCESS']
        cov = [p for p in res['cover'] if p['status'] == 'SUCCESS']
        o['discharged'] = sum(1 for p in obl + res['unwind']
                              if p['status'] == 'SUCCESS')
        o['covers'] = len(res['cover']) - len(cov)
        o['named'] = sorted({p['description'][3:] for p in res['obl']
                             if p['description'].startswith('vp:')})
        if nob:
            o['status'] = 'error'
            o['error'] = 'no contract for callee: ' + ', '.join(
                sorted({p['description'] for p in nob}))
            return o
        need = [p for p in res['need'] if p['status'] == 'SUCCESS']
        if need:
            o['status'] = 'error'
            o['error'] = 'the code no longer fits this decomposition: ' + \
                need[0]['description'][8:]
            return o
        fails = []
        # harness obligations first, then memory safety, then termination
        bad.sort(key=lambda p: not p['description'].startswith('vp:'))
        tried = 0
        if kind != 'loop':
            for p in bad[:4] + unw[:2]:
                vals, tp = self.trace_values(gb, p['property'])
                if vals is None:
                    continue
                tried += 1
                verdict, text = self.native(vals)
                fails.append({'property': p['property'],
                              'description': p['description'],
                              'location': p.get('sourceLocation', {}),
                              'values': vals, 'native': verdict,
                              'native_output': text,
                              'unwind': p in unw})
                if verdict not in ('fail', 'hang') and self.s.get('small'):
                    f2 = self.small_replay(p)
                    if f2:
                        fails[-1] = f2
                        verdict = f2['native']
                if verdict in ('fail', 'hang'):
                    o['status'] = 'violation'
                    o['fail'] = fails[-1]
                    return o
        if bad:
            o['status'] = 'unproved'
            o['fail'] = (fails or [{'property': p['property'],
                                    'description': p['description'],
                                    'location': p.get('sourceLocation', {})}
                                   for p in bad])[0]
            o['all_failed'] = [p['property'] + ': ' + p['description']
                               for p in bad][:20]
            return o
        if unw and kind == 'loop':
            o['status'] = 'error'
            o['error'] = 'unwinding of an uncut loop: ' + unw[0]['property']
            return o
        if unw:
            # the bound is too small for this code, but it terminates on the
            # replayed input: explore deeper
            uw = self.s.get('unwind', 6)
            if not getattr(self, 'deeper', False):
                self.deeper = True
                gb, res2 = self.run_bounded(unwind=2 * uw)
                self.s['unwind'] = 2 * uw
                return self.judge(gb, res2, kind)
            o['status'] = 'error'
            o['error'] = 'unwinding bound exceeded: ' + unw[0]['property']
            return o
        if unk:
            o['status'] = 'error'
            o['error'] = 'unknown status: ' + unk[0]['property']
            return o
        if cov:
            o['status'] = 'unproved'
            o['fail'] = {'property': cov[0]['property'],
                         'description': 'no longer reachable: ' +
                         cov[0]['description'][9:],
                         'location': cov[0].get('sourceLocation', {})}
            return o
        if o['obligations'] == 0 or not res['cover']:
            o['status'] = 'error'
            o['error'] = 'vacuous: no obligations or no reachability cover'
            return o
        o['status'] = 'proved' if self.s['mode'] in ('full', 'loop') \
            else 'bounded-ok'
        return o


def decide_unit(spec, tier, work):
    u = Unit(spec, tier, work)
    if spec['mode'] == 'loop':
        return u.decide('loop')
    return u.decide()


def load_known():
    known = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) unit=(\S+) obligation="([^"]*)" (.*)',
                         line.strip())
            if m:
                known.setdefault((m.group(1), m.group(2)), []).append(
                    (m.group(3), m.group(4)))
    return known


def check(prop, tier):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    try:
        return check_in(prop, tier, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(prop, tier, work, t0):
    units = [u for u in UNITS if prop in u['props']
             and (tier == 'thorough' or not u.get('thorough_only'))]
    if not units:
        print('no units for', prop)
        return 2
    with concurrent.futures.ThreadPoolExecutor(max_workers=16) as ex:
        results = list(ex.map(lambda s: decide_unit(s, tier, work), units))
    viol = [r for r in results if r['status'] == 'violation']
    unpr = [r for r in results if r['status'] == 'unproved']
    errs = [r for r in results if r['status'] == 'error']
    good = [r for r in results if r['status'] in ('proved', 'bounded-ok')]
    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    known = load_known()

    def replay_file(r):
        path = os.path.join(rdir, '%s-%s.json' % (prop, r['unit']))
        spec = [u for u in units if u['name'] == r['unit']][0]
        json.dump({'property': prop, 'unit': r['unit'],
                   'harness': 'units/' + spec['file'],
                   'entry': spec['entry'],
                   'failed_obligation': r.get('fail', {}).get('property'),
                   'description': r.get('fail', {}).get('description'),
                   'location': r.get('fail', {}).get('location'),
                   'counterexample_values': r.get('fail', {}).get('values'),
                   'native_replay': r.get('fail', {}).get('native'),
                   'native_output': r.get('fail', {}).get('native_output'),
                   'other_failed': r.get('all_failed'),
                   'replay_cmd': 'python3 vp.py replay <this file>',
                   'cmd': r.get('cmd')}, open(path, 'w'), indent=1)
        return path

    nviol = 0
    for r in viol:
        d = r['fail']['description']
        kf = [t for (o, t) in known.get((prop, r['unit']), []) if o == d]
        if kf:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf[0]))
            continue
        nviol += 1
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay_file(r)))
        lines.append('  unit %s: %s' % (r['unit'], d))
        lines.append('  native replay: ' + r['fail']['native'] + ' ' +
                     (r['fail'].get('native_output') or '')
                     .strip().split('\n')[0][:200])
    if not nviol:
        for r in unpr:
            nviol += 1
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found'
                         % (prop, replay_file(r)))
            break
    for r in unpr:
        print('# obligation not discharged in %s: %s %s (native: %s)' % (
            r['unit'], r['fail'].get('property'), r['fail'].get('description'),
            r['fail'].get('native')))
    for r in errs:
        print('# TOOL-ERROR in %s: %s' % (r['unit'], r.get('error')))
    write_evidence(prop, tier, results, units, time.time() - t0, nviol)
    for r in results:
        print('# %-28s %-10s obl=%s/%s covers=%s %.1fs' % (
            r['unit'], r['status'], r.get('discharged'), r.get('obligations'),
            r.get('covers'), r['wall_s']))
    for l in lines:
        print(l)
    if nviol:
        return 1
    if errs and not good:
        return 2
    return 0


def write_evidence(prop, tier, results, units, wall, nviol):
    os.makedirs(EVID, exist_ok=True)
    proved = [r for r in results if r['status'] == 'proved']
    bnd = [r for r in results if r['mode'] == 'bounded']
    pu = [r for r in results if r['mode'] != 'bounded']
    fun = sorted({f for r in results for f in r['functions']})
    ass = list(ASSUME.get(prop, []))
    for u in units:
        for a in u.get('assumptions', []):
            if a not in ass:
                ass.append(a)
    cov = {
        'obligations': sum(r.get('obligations', 0) for r in pu) if pu else
        sum(r.get('obligations', 0) for r in bnd),
        'discharged': sum(r.get('discharged', 0) for r in proved) if pu else
        sum(r.get('discharged', 0) for r in bnd if r['status'] == 'bounded-ok'),
        'checker_cmd': 'python3 vp.py check %s --tier %s (goto-cc + cbmc 6.11, '
                       'MiniSat 2.2.1 back end)' % (prop, tier),
        'trusted_base': ['cbmc 6.11.0 (symbolic execution, pointer model, '
                         'bit-blasting) with its built-in MiniSat back end',
                         'goto-cc C front end',
                         'tools/loopcut.py (loop-invariant instrumentation; '
                         'clang 18 AST) for units of mode loop',
                         'contracts/*.h: assumed callee contracts in units '
                         'that do not verify the callee themselves'],
        'functions_under_contract': fun,
        'bounded_obligations': sum(r.get('obligations', 0) for r in bnd),
        'bounded_discharged': sum(r.get('discharged', 0) for r in bnd
                                  if r['status'] == 'bounded-ok'),
        'bounds': {r['unit']: r['bound'] for r in bnd},
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'reachability_covers': sum(r.get('covers', 0) or 0 for r in results),
        'units': [{k: r.get(k) for k in (
            'unit', 'mode', 'status', 'obligations', 'discharged', 'covers',
            'named', 'invariants', 'houdini_rounds', 'solver_s', 'error')
            if r.get(k) is not None} for r in results],
    }
    if level(prop) == 'other':
        cov['explanation'] = (
            'contract-based verification with bounded stand-ins: every '
            'contract obligation below was discharged by CBMC for all inputs '
            'within the stated bounds (never counted as an unbounded proof); '
            'mode full/loop units are unbounded.')
    ev = {'property': prop, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': level(prop), 'coverage': cov, 'assumptions': ass,
          'wall_s': round(wall, 2), 'violations': nviol}
    tmp = os.path.join(EVID, '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))


def main():
    a = sys.argv[1:]
    if a and a[0] == 'check':
        tier = 'quick'
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        sys.exit(check(a[1], tier))
    if a and a[0] == 'unit':
        tier = 'thorough' if '--thorough' in a else 'quick'
        names = [x for x in a[1:] if not x.startswith('--')]
        work = tempfile.mkdtemp(prefix='vp-unit-')
        specs = [u for u in UNITS if any(
            re.fullmatch(n, u['name']) for n in names)]
        try:
            with concurrent.futures.ThreadPoolExecutor(max_workers=16) as ex:
                for r in ex.map(lambda s: decide_unit(s, tier, work), specs):
                    if '-v' in sys.argv or '--v' in sys.argv:
                        print(json.dumps(r, indent=1))
                    else:
                        print('%-28s %-10s obl=%s/%s covers=%s wall=%.1f %s' % (
                            r['unit'], r['status'], r.get('discharged'),
                            r.get('obligations'), r.get('covers'),
                            r['wall_s'], r.get('error', '')))
                        if 'fail' in r:
                            print('    ', r['fail'].get('property'),
                                  r['fail'].get('description'),
                                  r['fail'].get('location', {}).get('line'),
                                  r['fail'].get('native'),
                                  r['fail'].get('native_output', '')[:600])
                        for x in r.get('all_failed', []):
                            print('      -', x)
        finally:
            if '--keep' in a:
                print(work)
            else:
                shutil.rmtree(work, ignore_errors=True)
        return
    if a and a[0] == 'native':       # every harness must build for replay
        work = tempfile.mkdtemp(prefix='vp-native-')
        names = a[1:] or ['.*']
        try:
            with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
                def nb(s):
                    return s['name'], Unit(s, 'quick', work).native([])
                for n, (v, t) in ex.map(nb, [u for u in UNITS if any(
                        re.fullmatch(x, u['name']) for x in names)
                        and u['mode'] != 'loop']):
                    if v == 'nobuild':
                        print(n, v, t[:1500])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return
    if a and a[0] == 'replay':
        d = json.load(open(a[1]))
        spec = [u for u in UNITS if u['name'] == d['unit']][0]
        work = tempfile.mkdtemp(prefix='vp-replay-')
        try:
            u = Unit(spec, 'quick', work)
            v, t = u.native(d['counterexample_values'] or [])
            print(v, t)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return
    if a and a[0] == 'setup':
        for t in ('cbmc', 'goto-cc', 'goto-instrument', 'clang', 'gcc'):
            if shutil.which(t) is None:
                print('missing tool: ' + t)
                sys.exit(1)
        print('tools present; nothing to build ahead of the checks')
        return
    for u in UNITS:
        print(u['name'], u['props'], u['mode'])


if __name__ == '__main__':
    main()
