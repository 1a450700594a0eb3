#!/usr/bin/env python3
"""Mutation campaign: python3 mutate.py <outdir> <workers> <seed> <n> <file>... ; files relative to the repo.
Survivors (mutants no check alarms on) are written to outdir/survivors.txt."""
import sys, os, re, random, subprocess, shutil, json, threading, queue
out, workers, seed, n, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
os.makedirs(out, exist_ok=True)
SUB = [(r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ', ' >= ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' <= ']), (r' >= ', [' > ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\.rev\(\)', ['']), (r' \+= ', [' = ', ' -= ']), (r' -= ', [' += ']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
       (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\bis_some\(', ['is_none(']), (r'\bis_none\(', ['is_some(']), (r'\bis_ok\(', ['is_err(']),
       (r'\.first\(', ['.last(']), (r'\.last\(', ['.first(']), (r'\bcontinue\b', ['break']), (r'\bbreak;', ['continue;']),
       (r'\.\.=', ['..']), (r' & ', [' | ']), (r' \| ', [' & ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r'!(?=[a-z])', ['']),
       (r'\.skip\((\d+)\)', ['']), (r' i16\b', [' i8']), (r' u32\b', [' u16']), (r' i64\b', [' i32']), (r'as u32', ['as u16 as u32']), (r'wrapping_', ['saturating_']),
       (r'saturating_sub', ['wrapping_sub']), (r'\.or_else\(\|\| .*?\)', ['']), (r'Some\((\w+)\)', ['None']), (r'\.clone\(\)', ['.clone().into_iter().skip(1).collect()'])]
def mutants(path):
    text = open('/repo/' + path).read()
    lines = text.split('\n')
    stop = next((i for i, l in enumerate(lines) if '#[cfg(test)]' in l), len(lines))
    res = []
    for i, l in enumerate(lines[:stop]):
        s = l.strip()
        if not s or s.startswith(('//', '#[', 'use ', 'pub use', 'mod ', 'pub mod', 'pub struct', 'pub enum', 'impl', '#!')):
            continue
        for pat, reps in SUB:
            for m in re.finditer(pat, l):
                for r in reps:
                    res.append((path, i, l[:m.start()] + r + l[m.end():]))
        for m in re.finditer(r'(?<![\w.#])(\d+)(?![\w.]|\.\d)', l):
            v = int(m.group(1))
            for w in {v + 1, max(0, v - 1)} - {v}:
                res.append((path, i, l[:m.start()] + str(w) + l[m.end():]))
        if s.endswith(';') and not s.startswith(('let ', 'return', 'type ', 'const ', 'pub ', 'fn ', 'break', 'continue', '}')):
            res.append((path, i, re.match(r'\s*', l).group() + '{}'))
        m = re.match(r'(\s*(?:\} else )?if )(?!let )(.*)( \{)$', l)
        if m:
            res.append((path, i, m.group(1) + '!(' + m.group(2) + ')' + m.group(3)))
            res.append((path, i, m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3)))
            res.append((path, i, m.group(1) + 'true || (' + m.group(2) + ')' + m.group(3)))
        m = re.match(r'(\s*)(.* if .*) => ', l)
        if re.match(r'\s*\S.* => .*,$', l):
            res.append((path, i, ''))
    return res
allm = []
for f in files:
    allm += mutants(f)
random.Random(seed).shuffle(allm)
print(len(allm), 'mutants possible')
allm = allm[:n]
env = dict(os.environ)
env.update(dict(l.split('=', 1) for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], capture_output=True, text=True).stdout.splitlines() if '=' in l))
env['RUSTFLAGS'] = '--cap-lints warn'
SRC = os.environ.get('MSRC', '/verif')
def setup(w):
    d = f'{out}/w{w}'
    if os.path.exists(d): return d
    os.makedirs(d)
    for x in ['harness', 'harness2', 'harness-opts', 'standins', 'known-findings.txt']:
        subprocess.run(['cp', '-a', f'{SRC}/{x}', d])
    subprocess.run(['rsync', '-a', '--exclude', 'target', '--exclude', '.git', '/repo', d]) if shutil.which('rsync') else subprocess.run(f'mkdir {d}/repo && cd /repo && git archive HEAD | tar x -C {d}/repo', shell=True)
    os.makedirs(d + '/out', exist_ok=True); shutil.copy(f'{SRC}/known-findings.txt', d + '/out/')
    subprocess.run(f"grep -rlE '/repo|/verif/standins' {d}/harness* {d}/standins --include=*.rs --include=*.toml --include=*.lock | xargs sed -i 's#/repo/#{d}/repo/#g; s#/verif/standins#{d}/standins#g'", shell=True)
    return d
def run(d, cmd, timeout, cwd=None, wid=0):
    e = dict(env); e['CARGO_TARGET_DIR'] = d + '/target'; e['VERIF_ROOT'] = d + '/out'; e['CARGO_BUILD_JOBS'] = '3'
    e['VERIF_THREADS'] = '3'
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
CH = {'harness/core': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09'], 'harness/decomp': ['C14', 'C13', 'C10', 'C12'] if os.environ.get('SHORT') else ['C14', 'C13', 'C10', 'C12', 'C15', 'C11'], 'harness-opts/opts': ['C16'], 'harness2/comp': ['C17', 'C18', 'C19', 'C20'] + os.environ.get('MORE', '').split()}
def plan(path):
    if path.startswith('core/src/ast'): return ['harness/core', 'harness/decomp', 'harness2/comp']
    if path.startswith('core'): return ['harness/core', 'harness/decomp']
    if path.startswith('decompiler'): return ['harness/decomp']
    if path.startswith('compiler'): return ['harness2/comp']
    return ['harness-opts/opts']
lock = threading.Lock()
stat = {}
def note(kind, m, extra=''):
    with lock:
        stat[kind] = stat.get(kind, 0) + 1
        with open(f'{out}/{kind}.txt', 'a') as f:
            f.write(f'{m[0]}:{m[1]+1}: {extra}\n  - {open("/repo/"+m[0]).read().split(chr(10))[m[1]].strip()}\n  + {m[2].strip()}\n')
        print(stat, flush=True)
def work(w, q):
    d = setup(w)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        path, i, new = m
        t = f'{d}/repo/{path}'
        orig = open(t).read()
        ls = orig.split('\n'); ls[i] = new
        open(t, 'w').write('\n'.join(ls))
        try:
            killed = None
            for hb in plan(path):
                h, b = hb.split('/')
                rc, o = run(d, ['cargo', 'build', '--offline', '--quiet', '--bin', b], 400, f'{d}/{h}')
                if rc != 0:
                    killed = 'nobuild'; break
                for c in CH[hb]:
                    rc, o = run(d, [f'{d}/target/debug/{b}', c], 240)
                    if rc != 0:
                        killed = c + ('' if rc == 1 else f' rc={rc}'); break
                if killed: break
            if killed == 'nobuild': note('nobuild', m)
            elif killed: note('killed', m, killed)
            else: note('survivors', m)
        finally:
            open(t, 'w').write(orig)
q = queue.Queue()
for m in allm: q.put(m)
ts = [threading.Thread(target=work, args=(w, q)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
