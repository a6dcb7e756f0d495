#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X]

Builds the harnesses of one property from /repo's working tree, runs them sharded under
the sanitizers with the monitors on, and turns what was observed into a verdict:
exit 0 held / exit 1 + VIOLATION line / exit 2 no verdict (harness trouble)."""
import argparse, concurrent.futures, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'vlib'))
import buildsys
from spec import PROPS, HARNESS

ENV = {
    'TZ': 'PIO-3:30',     # dates on the wire must not depend on the local time zone
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=86:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:'
                    'max_allocation_size_mb=4096:handle_abort=1:strict_string_checks=0:detect_odr_violation=0:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=86',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=86:second_deadlock_stack=1:history_size=4:suppressions=' + os.path.join(VERIF, 'h', 'tsan.supp'),
}


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m:
                out.append({'property': m.group(1), 'sig': m.group(2), 'text': m.group(3)})
    return out


def san_signature(text):
    kind = None
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)', text)
    if m:
        kind = 'asan:' + re.split(r'[ (]', m.group(2).strip())[0]
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', text)
        if m:
            kind = 'tsan:' + m.group(1).strip().replace(' ', '-')
    if not kind:
        m = re.search(r'runtime error: ([^\n]*)', text)
        if m:
            kind = 'ubsan:' + '-'.join(re.sub(r"0x[0-9a-f]+|-?\d+|'[^']*'", '', m.group(1)).split()[:5])
    if not kind and 'terminate called' in text:
        m = re.search(r"terminate called after throwing an instance of '([^']*)'", text)
        kind = 'uncaught:' + (m.group(1) if m else '?')
    if not kind:
        return None
    fr = re.findall(r'#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):\d+', text)
    fn = next((f for f, path in fr if path.startswith(buildsys.REPO + '/')), fr[0][0] if fr else '')
    fn = re.sub(r'\(.*', '', fn.split('<')[0]).replace(' ', '_')
    return kind + '@' + fn


class Run:
    """One harness executed over all its shards."""

    def __init__(self, prop, run, exe, tier, seed, scale, work):
        self.prop, self.run, self.exe = prop, run, exe
        self.tier, self.seed, self.scale, self.work = tier, seed, scale, work
        self.findings = []      # dict(sig, scenario, index, detail, log)
        self.errors = []
        self.counters, self.distinct, self.samples, self.evaluations = {}, set(), [], 0
        self.stop = False

    def cmd(self, shard, n, out, extra=()):
        c = [self.exe, '--prop', self.run.get('as', self.prop), '--seed', str(self.seed), '--tier', self.tier,
             '--shard', '%d/%d' % (shard, n), '--out', out, '--cur', out + '.cur', '--scale', str(self.scale)]
        return self.run.get('wrap', []) + c + list(self.run.get('args', [])) + list(extra)

    def exec(self, cmd, tag, timeout):
        env = dict(os.environ)
        env.update(ENV)
        env.update(self.run.get('env', {}))
        env['VH_SO_DIR'] = self.exe + '.so.d'
        env['VH_DATA'] = os.path.join(VERIF, 'h', 'data')
        env['VH_REPO'] = buildsys.REPO
        wd = os.path.join(self.work, tag + '.d')
        os.makedirs(wd, exist_ok=True)
        os.chmod(wd, 0o777)
        env['VH_SCRATCH'] = wd
        outp, errp = os.path.join(self.work, tag + '.stdout'), os.path.join(self.work, tag + '.stderr')
        with open(outp, 'wb') as o, open(errp, 'wb') as e:
            p = subprocess.Popen(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, env=env, cwd=wd, start_new_session=True)
            t0 = time.time()
            rc = None
            while rc is None:
                try:
                    rc = p.wait(0.2)
                except subprocess.TimeoutExpired:
                    if self.stop or time.time() - t0 > timeout:
                        rc = 'stopped' if self.stop else 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        txt = open(outp, 'rb').read().decode('utf-8', 'replace')
        err = open(errp, 'rb').read().decode('utf-8', 'replace')
        if len(err) > 400000:
            err = err[:200000] + '\n...\n' + err[-200000:]
        shutil.rmtree(wd, ignore_errors=True)
        return rc, txt, err

    def judge(self, rc, txt, err, cur):
        """-> (findings, suspects, error)"""
        f, sus, error = [], [], None
        for line in txt.splitlines():
            p = line.split('\t', 4)
            if p[0] == 'FAIL' and len(p) == 5:
                f.append({'sig': p[1], 'scenario': p[2], 'index': p[3], 'detail': p[4]})
            elif p[0] == 'HANG' and len(p) == 5:
                sus.append({'sig': 'hang:' + p[1], 'scenario': p[2], 'index': p[3], 'detail': p[4]})
            elif p[0] == 'WATCHDOG' and len(p) >= 3:
                sus.append({'sig': 'hang:case-never-finished:' + p[1], 'scenario': p[1], 'index': p[2], 'detail': 'the case used up its time budget'})
            elif p[0] == 'HARNESS-ERROR':
                error = line
        scen, idx = (cur.split('\t') + ['', ''])[:2]
        done = 'DONE' in txt.splitlines()
        sig = san_signature(err)
        if sig:
            f.append({'sig': sig, 'scenario': scen, 'index': idx, 'detail': 'sanitizer / runtime abort', 'log': err})
        elif rc == 'stopped' or rc == 77:
            pass
        elif rc == 'timeout':
            error = error or 'run exceeded its wall-clock limit (inconclusive)'
        elif isinstance(rc, int) and rc < 0 and rc != -9:
            f.append({'sig': 'crash:signal%d' % -rc, 'scenario': scen, 'index': idx, 'detail': 'process died', 'log': err})
        elif rc == -9:
            error = error or 'killed (out of memory?)'
        elif rc == 86:
            f.append({'sig': 'sanitizer-abort', 'scenario': scen, 'index': idx, 'detail': 'sanitizer exit', 'log': err})
        elif 'NOSCENARIO' in txt:
            error = 'no scenario for this property'
        elif rc == 4 or error:
            error = error or 'harness error'
        elif not done:
            f.append({'sig': 'unexpected-exit:%s' % rc, 'scenario': scen, 'index': idx,
                      'detail': 'the code under test ended the process', 'log': err})
        return f, sus, error

    def cur(self, out):
        try:
            return open(out + '.cur', 'rb').read().split(b'\0')[0].decode()
        except OSError:
            return ''

    def one_shard(self, shard, n):
        out = os.path.join(self.work, 's%d' % shard)
        rc, txt, err = self.exec(self.cmd(shard, n, out), 's%d' % shard, self.run.get('timeout', 450 if self.tier == 'quick' else 800))
        f, sus, error = self.judge(rc, txt, err, self.cur(out))
        if self.run.get('san_only'):    # behaviour is another property's matter, judged without the slow detector
            k = len(f)
            f = [x for x in f if 'log' in x or x['sig'].startswith('hang:')]
            if k > len(f):
                self.counters['functional_reports_left_to_other_checks'] = self.counters.get('functional_reports_left_to_other_checks', 0) + k - len(f)
        if f:
            self.stop = self.stop or any(self.is_new(x) for x in f) and not self.run.get('keep_going')
        if any(s['sig'].startswith('hang:case-never') for s in sus):
            self.stop = True
        return shard, out, f, sus, error, err

    def is_new(self, x):
        return not any(k['property'] == self.prop and k['sig'] == x['sig'] for k in known_findings())

    def go(self):
        n = self.run.get('shards', 8)
        with concurrent.futures.ThreadPoolExecutor(max_workers=n) as ex:
            res = list(ex.map(lambda i: self.one_shard(i, n), range(n)))
        self.stop = False
        suspects = []
        for shard, out, f, sus, error, err in res:
            self.findings += f
            suspects += sus
            if error:
                self.errors.append('shard %d: %s %s' % (shard, error, err[-1500:]))
            try:
                j = json.load(open(out + '.json'))
                self.evaluations += j['evaluations']
                for k, v in j['counters'].items():
                    self.counters[k] = self.counters.get(k, 0) + v
                self.samples += j['samples'][:1] if len(self.samples) >= 3 else j['samples']
                d = open(out + '.distinct', 'rb').read()
                self.distinct.update(struct.unpack('<%dQ' % (len(d) // 8), d))
            except (OSError, ValueError):
                pass
        # a time limit is believed only if it runs out again for the same case run alone, in any of
        # several attempts (the schedule differs each time), or in three independent processes
        by = {}
        for s in suspects:
            by.setdefault((s['sig'], s['scenario']), []).append(s)
        for (sig, scenario), ss in list(by.items())[:3]:
            s = ss[0]
            f2, sus2 = [], []
            for attempt in range(self.run.get('hang_rounds', 2)):
                # first one alone, then several at a time
                k = 1 if attempt == 0 else 4
                with concurrent.futures.ThreadPoolExecutor(max_workers=k) as ex:
                    for a, b, e in ex.map(lambda q: self.replay(scenario, ss[q % len(ss)]['index'], 'replay%d' % q), range(k)):
                        f2 += a
                        sus2 += [x for x in b if x['sig'] == sig]
                if f2 or sus2:
                    break
            if f2:
                self.findings += f2
            elif sus2 or len(ss) >= 3:
                s['detail'] += ' (confirmed by running the case again)' if sus2 else ' (in %d independent processes)' % len(ss)
                self.findings.append(s)
            else:
                self.counters['inconclusive_waits_not_confirmed'] = self.counters.get('inconclusive_waits_not_confirmed', 0) + 1

    def replay(self, scenario, index, tag='replay'):
        out = os.path.join(self.work, tag)
        rc, txt, err = self.exec(self.cmd(0, 1, out, ['--scenario', scenario, '--index', str(index)]), tag, 200)
        return self.judge(rc, txt, err, self.cur(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    prop = a.property
    if prop not in PROPS:
        print('unknown property', prop)
        return 2
    spec = PROPS[prop]
    t0 = time.time()
    only = None
    if a.replay:
        only = json.load(open(a.replay))
        a.seed, a.tier = only['seed'], only['tier']
    work = tempfile.mkdtemp(prefix='vh-%s-' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
    os.chmod(work, 0o755)
    try:
        try:
            runs = []
            for r in spec['runs']:
                if a.tier == 'quick' and r.get('thorough_only'):
                    continue
                if only and (r['h'], r['flavor']) != (only['harness'], only['flavor']):
                    continue
                exe = buildsys.build(r['h'], r['flavor'], HARNESS[r['h']])
                w = os.path.join(work, '%s-%s-%d' % (r['h'], r['flavor'], len(runs)))
                os.makedirs(w)
                os.chmod(w, 0o755)
                runs.append(Run(prop, r, exe, a.tier, a.seed, a.scale * (r.get('thorough_scale', r.get('scale', 1.0)) if a.tier == 'thorough' else r.get('scale', 1.0)), w))
        except buildsys.BuildError as e:
            print('BUILD-ERROR', e)
            return 2
        t_build = time.time() - t0
        for r in runs:
            if only:
                f, sus, error = r.replay(only['scenario'], only['index'])
                r.findings += f + sus
                if error:
                    r.errors.append(error)
            else:
                r.go()
                if any(r.is_new(x) for x in r.findings):
                    break
        return finish(prop, spec, a, runs, t0, t_build, only)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def finish(prop, spec, a, runs, t0, t_build, only):
    known = [k for k in known_findings() if k['property'] == prop]
    new, seen_known = [], {}
    for r in runs:
        for x in r.findings:
            k = next((k for k in known if k['sig'] == x['sig']), None)
            if k:
                seen_known[k['sig']] = k
            else:
                x['harness'], x['flavor'] = r.run['h'], r.run['flavor']
                new.append(x)
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    counters = {}
    for r in runs:
        pre = '' if len(runs) == 1 else r.run['flavor'] + '/' + r.run['h'] + ':'
        for k, v in sorted(r.counters.items()):
            counters[pre + k] = v
    errors = [e for r in runs for e in r.errors]
    total = {}
    for r in runs:
        for k, v in r.counters.items():
            total[k] = total.get(k, 0) + v
    if not only and not new and not errors:
        for k, v in spec.get('need', {}).items():
            if total.get(k, 0) < v * min(1.0, a.scale):
                errors.append('monitor observed too little: %s = %d < %d' % (k, total.get(k, 0), v))
    if not only:
        distinct = set()
        for r in runs:
            distinct |= r.distinct
        ev = {
            'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': sum(r.evaluations for r in runs),
                'distinct_nontrivial': len(distinct),
                'rule': spec['rule'],
                'samples': [s for r in runs for s in r.samples[:3]][:8],
                'events_observed': counters,
                'runs': [{'harness': r.run['h'], 'build': r.run['flavor'], 'shards': r.run.get('shards', 8),
                          'evaluations': r.evaluations} for r in runs],
                'build_s': round(t_build, 1),
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    if new:
        rdir = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for x in new:
            if x['sig'] in shown:
                continue
            shown.add(x['sig'])
            name = re.sub(r'[^A-Za-z0-9_.-]+', '_', '%s-%s' % (prop, x['sig']))[:120]
            path = os.path.join(rdir, name + '.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'harness': x['harness'], 'flavor': x['flavor'], 'scenario': x['scenario'],
                           'index': x['index'], 'seed': a.seed, 'tier': a.tier, 'sig': x['sig'], 'detail': x['detail'],
                           'log': x.get('log', '')[:20000]}, f, indent=1)
            print('  %s [%s/%s case %s]: %s' % (x['sig'], x['harness'], x['scenario'], x['index'], x['detail'][:1500]))
            if x.get('log'):
                print('\n'.join('    ' + l for l in x['log'].splitlines()[:40]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors:
            print('NO-VERDICT', e)
        return 2
    print('HELD property=%s tier=%s seed=%d evaluations=%d wall=%.1fs (build %.1fs) %s' % (
        prop, a.tier, a.seed, sum(r.evaluations for r in runs), time.time() - t0, t_build,
        json.dumps(counters)[:1500]))
    return 0


if __name__ == '__main__':
    sys.exit(main())
