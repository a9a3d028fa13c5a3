#!/usr/bin/env python3
"""Mechanical mutants of bongo, run against the checks in a scratch copy.

mutate.py WORKDIR [--files a.rs,b.rs] [--every N] [--seed S]
Prints one line per mutant: whether it builds, passes the tests, and which check catches it.
"""
import os, re, subprocess, sys, random, shutil, argparse
ap = argparse.ArgumentParser()
ap.add_argument('work'); ap.add_argument('--files'); ap.add_argument('--every', type=int, default=1)
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--out', default='mutants.log')
a = ap.parse_args()
W = a.work
REPO, VER = W + '/repo', W + '/verif'
if not os.path.exists(REPO):
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', REPO])
    os.makedirs(VER)
    for x in ['harness', 'check.sh', 'KNOWN_FINDINGS.txt']:
        subprocess.check_call(['cp', '-a', '/verif/' + x, VER])
    for root, _, fs in os.walk(VER):
        for f in fs:
            if f == 'check.sh':
                p = os.path.join(root, f); s = open(p).read()
                open(p, 'w').write(s.replace('/repo', REPO))
C = {
 'src/utils.rs': 'C21 C22 C25 C33 C04 C01 C06 C09 C07 C05 C24 C27',
 'src/utils/buffer.rs': 'C18 C19 C32', 'src/utils/fmt.rs': 'C29', 'src/utils/mergeables.rs': 'C26', 'src/utils/type_map.rs': 'C20 C10',
 'src/state.rs': 'C23 C31 C01 C02 C27', 'src/start_grammar.rs': 'C13 C24 C33 C01',
 'src/parsers/tree.rs': 'C14 C16 C15 C02 C03 C30', 'src/parsers/earley.rs': 'C01 C02 C03 C30', 'src/parsers/earley/state.rs': 'C01 C02 C03 C30',
 'src/parsers/lalr.rs': 'C27', 'src/parsers/mod.rs': 'C17 C01',
 'src/grammar/base.rs': 'C05 C04 C24 C28 C31 C13 C10 C23', 'src/grammar/base/builder.rs': 'C05 C04 C13', 'src/grammar/base/cmp_wrappers.rs': 'C28 C10 C23 C05',
 'src/grammar/base/element_types.rs': 'C05 C24 C25 C31 C33', 'src/grammar/passes/mod.rs': 'C10 C06', 'src/grammar/passes/nullable.rs': 'C06 C07 C11 C12', 'src/grammar/passes/nullable/nullables.rs': 'C06 C07 C11 C12',
 'src/grammar/passes/firsts.rs': 'C08 C09 C27', 'src/grammar/passes/follows.rs': 'C09', 'src/grammar/transform/nonnull.rs': 'C11 C12', 'src/grammar/transform.rs': 'C11 C12',
}
OPS = [
 (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|(?=.*[a-z])', '&&'),
 (r' \+ 1\b', ''), (r' \+ 1\b', ' + 2'), (r' - 1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if !', 'if '), (r'\bif (?!let)', 'if !'),
 (r'\(!', '('), (r'WasChanged::Changed', 'WasChanged::Unchanged'), (r'WasChanged::Unchanged', 'WasChanged::Changed'),
 (r'\bNone\b', 'Some(Default::default())'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'),
 (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'Ordering::Equal', 'Ordering::Less'),
 (r'\bself\b(\.[a-z_]+)*\.cmp\(&?', None), (r'\.is_empty\(\)', '.is_empty() == false'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
 (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\.chain\(', '.chain(std::iter::empty()).chain(') , (r'\.rev\(\)', ''), (r'\.push_back\(', '.push_front('), (r'\.or_insert', '.or_insert'),
 (r'\.filter\((\|[^|]*\|) ', r'.filter(\1 true || '), (r'\.skip\(', '.skip(1 + '), (r'\.values\(\)', '.values().skip(1)'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\.into_iter\(\)', '.into_iter().skip(1)'), (r'\.into_iter\(\)', '.into_iter().take(1)'), (r'\.prods\(\)', '.prods().skip(1)'),(r'\.prods\(\)', '.prods().take(1)'),
]
def code_lines(path):
    src = open(path).read().split('\n')
    out = []; skip = False; depth = None
    for i, l in enumerate(src):
        if re.match(r'\s*#\[cfg\((test|bongo_verif)\)\]', l): skip = True; depth = 0; started = False; continue
        if skip:
            depth += l.count('{') - l.count('}')
            if '{' in l: started = True
            if started and depth <= 0: skip = False
            continue
        t = l.strip()
        if not t or t.startswith('//') or t.startswith('#[') or t.startswith('use ') or t.startswith('pub use'): continue
        out.append(i)
    return src, out
def mutants(path):
    src, lines = code_lines(path)
    seen = set()
    for i in lines:
        l = src[i]
        # delete a statement
        if l.strip().endswith(';') and not l.strip().startswith(('let ', 'pub ', 'mod ', 'return', 'type ', 'break', '}')) and l.count('(') == l.count(')'):
            yield i, [l], ['']
        elif re.match(r'\s*\.[a-z_]+\(.*\)$', l):
            yield i, [l], ['']
        for pat, rep in OPS:
            if rep is None: continue
            for m in re.finditer(pat, l):
                if '//' in l[:m.start()]: continue
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if (i, new) in seen or new == l: continue
                seen.add((i, new))
                yield i, [l], [new]
def sh(cmd, cwd, timeout=1000):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, ''
log = open(W + '/' + a.out, 'a')
rnd = random.Random(a.seed)
env = 'CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/mtarget ' % W
for f, checks in C.items():
    if a.files and f not in a.files.split(','): continue
    path = REPO + '/' + f
    if not os.path.exists(path): continue
    orig = open(path).read()
    ms = list(mutants(path))
    if a.every > 1: ms = [m for m in ms if rnd.random() < 1.0 / a.every]
    for i, old, new in ms:
        lines = orig.split('\n'); lines[i] = new[0]
        open(path, 'w').write('\n'.join(lines))
        try:
            rc, out = sh(env + 'cargo test --offline -q --lib --no-run', REPO)
            if rc != 0: continue
            rc, out = sh(env + 'timeout 60 cargo test --offline -q --lib', REPO)
            tag = '%s:%d: %s => %s' % (f, i + 1, old[0].strip(), new[0].strip())
            if rc != 0: print('TESTS   ', tag, file=log, flush=True); continue
            res = 'SURVIVED'; det = []
            for c in checks.split():
                rc, out = sh('./check.sh %s quick' % c, VER)
                if rc == 1 and 'VIOLATION property=%s' % c in out: res = 'caught ' + c; break
                if rc != 0: det.append('%s=%d' % (c, rc))
            print('%-10s' % res, tag, ' '.join(det), file=log, flush=True)
        finally:
            open(path, 'w').write(orig)
print('DONE', file=log, flush=True)
