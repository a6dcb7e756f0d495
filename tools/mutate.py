#!/usr/bin/env python3
"""mutate.py --files F:CHECKS;F:CHECKS --n N --seed S --workers W --out LOG
Mutation campaign: small changes to the sources in a scratch copy, each judged by the given checks."""
import argparse, os, random, re, shutil, subprocess, sys, threading, queue
ap = argparse.ArgumentParser()
ap.add_argument('--files', required=True); ap.add_argument('--n', type=int, default=40); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--workers', type=int, default=2); ap.add_argument('--out', required=True); ap.add_argument('--dir', default='/tmp/mut')
ap.add_argument('--shards', type=int, default=0)
a = ap.parse_args()

def muts(path, text):
    out = []; skip = 0; incomment = False
    lines = text.split('\n')
    win = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if '/*' in s and '*/' not in s: incomment = True
        if incomment:
            if '*/' in s: incomment = False
            continue
        if s.startswith('#if') and ('WIN32' in s or '_MSC' in s) and 'ndef' not in s: win = 1
        if s.startswith('#else') or s.startswith('#endif'): win = 0
        if win or s.startswith(('//', '*', '#', '/*')) or 'PION_LOG' in s or 'PION_ASSERT' in s or 'static const' in s and 'string' in s or s.startswith(('throw', 'BOOST_THROW', 'case', 'template', 'typedef', 'class', 'namespace', 'public', 'private', 'using')): continue
        code = re.sub(r'//.*', '', l)
        if '"' in code and 'include' in code: continue
        def add(op, new):
            if new != l: out.append((i, op, l, new))
        for m in re.finditer(r'(?<![<>=!\-+])(<=|>=|==|!=)(?!=)', code):
            r = {'<=': '<', '>=': '>', '==': '!=', '!=': '=='}[m.group(1)]
            add('rel', l[:m.start()] + r + l[m.end():])
        for m in re.finditer(r' (<|>) ', code):
            add('rel', l[:m.start()] + (' <= ' if m.group(1) == '<' else ' >= ') + l[m.end():])
        for m in re.finditer(r'(&&|\|\|)', code):
            add('logic', l[:m.start()] + ('||' if m.group(1) == '&&' else '&&') + l[m.end():])
        for m in re.finditer(r' ?[+-] ?1\b', code): add('one', l[:m.start()] + l[m.end():])
        for m in re.finditer(r'\btrue\b', code): add('bool', l[:m.start()] + 'false' + l[m.end():])
        for m in re.finditer(r'\bfalse\b', code): add('bool', l[:m.start()] + 'true' + l[m.end():])
        for m in re.finditer(r'(?<![\w.x])(\d+)(?![\w.])', code):
            v = int(m.group(1)); add('const', l[:m.start()] + str(v + 1) + l[m.end():])
        m = re.match(r'(\s*)(?:\} else )?if \((.*)\) ?\{?\s*$', code)
        if m: add('negate', re.sub(r'if \((.*)\)', lambda q: 'if (!(' + q.group(1) + '))', l, count=1))
        if s.endswith(';') and not re.match(r'(return|break|continue|default|goto|delete)\b', s) and not re.match(r'[\w:<>,\s\*&]+\s+[\w]+(\s*=|\(|;|\[)', s) and re.match(r'[\w\.\->\(\)\+\*\[\]:]+', s):
            add('delete', re.match(r'\s*', l).group(0) + ';')
        if s == 'break;': add('delete', l.replace('break;', ';'))
    return out
cands = []
for part in a.files.split(';'):
    f, ch = part.split(':'); t = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], stdout=subprocess.PIPE, text=True).stdout
    ms = muts(f, t); random.Random(a.seed * 7919 + hash(f) % 1).shuffle(ms)
    cands.append((f, ch.split(','), ms))
todo = []
tot = sum(len(c[2]) for c in cands)
rr = random.Random(a.seed)
allm = [(f, ch, m) for f, ch, ms in cands for m in ms]; rr.shuffle(allm)
# spread over lines
seen = set()
for f, ch, m in allm:
    if (f, m[0]) in seen: continue
    seen.add((f, m[0])); todo.append((f, ch, m))
    if len(todo) >= a.n: break
print(tot, 'candidates', len(todo), 'chosen', flush=True)
q = queue.Queue()
for x in todo: q.put(x)
log = open(a.out, 'a'); mu = threading.Lock()
def work(w):
    d = '%s/w%d' % (a.dir, w); os.makedirs(d, exist_ok=True)
    repo, ver = d + '/repo', d + '/verif'
    if os.path.exists(repo): shutil.rmtree(repo)
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    os.makedirs(ver, exist_ok=True)
    subprocess.run("cp -a /verif/check.py /verif/h /verif/vlib /verif/overlay /verif/known-findings.txt %s/" % ver, shell=True, check=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
    while True:
        try: f, ch, (i, op, old, new) = q.get_nowait()
        except queue.Empty: return
        p = repo + '/' + f; orig = open(p).read(); ls = orig.split('\n'); ls[i] = new; open(p, 'w').write('\n'.join(ls))
        res = 'SURVIVED'
        for c in ch:
            r = subprocess.run(['python3', 'check.py', c], cwd=ver, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if 'BUILD-ERROR' in r.stdout: res = 'invalid'; break
            if r.returncode == 1: res = 'caught ' + c; break
            if r.returncode == 2: res = 'NOVERDICT ' + c + ' ' + r.stdout[-200:].replace('\n', ' '); break
        open(p, 'w').write(orig)
        with mu:
            log.write('%s | %s:%d | %s | %s  ==>  %s\n' % (res, f, i + 1, op, old.strip(), new.strip())); log.flush()
        b = ver + '/build'
        if subprocess.run(['du', '-sm', b], stdout=subprocess.PIPE, text=True).stdout.split()[0:1] > ['6000'] and False: shutil.rmtree(b)
ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
