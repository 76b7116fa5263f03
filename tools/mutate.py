"""Random small changes to a scratch copy of the library that pass its tests, to find what no check reacts to.

mutate.py SEED COUNT OUT.jsonl: works in /tmp/mutate-SEED (removed first), never in /repo or /verif.
"""
import json, os, random, re, shutil, subprocess, sys, time, glob
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
focus = sys.argv[4] if len(sys.argv) > 4 else ''
R = random.Random(seed)
W = f'/tmp/mutate-{seed}'
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.run(['cp', '-a', '/verif/harness', f'{W}/harness'])
shutil.rmtree(f'{W}/harness/target', ignore_errors=True)
shutil.copy('/verif/check', W); shutil.copytree('/verif/data', f'{W}/data'); shutil.copy('/verif/KNOWN_FINDINGS.txt', W)
subprocess.run(f'mkdir {W}/repo && cd /repo && git archive HEAD | tar x -C {W}/repo && cp Cargo.lock {W}/repo/', shell=True)
p = f'{W}/harness/Cargo.toml'; s = open(p).read().replace('"/repo"', f'"{W}/repo"'); open(p, 'w').write(s)
OPS = [(r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
 (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'is_some\(\)', ['is_none()']), (r'is_none\(\)', ['is_some()']), (r'Lower\b', ['Upper']), (r'Upper\b', ['Lower']),
 (r'::Less\b', ['::Greater', '::Equal']), (r'::Greater\b', ['::Less', '::Equal']), (r'::Equal\b', ['::Greater', '::Less']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'min_by', ['max_by']), (r'max_by', ['min_by']),
 (r'if ', ['if !']), (r'\bbreak;', ['continue;']), (r'\.rev\(\)', ['']), (r'skip\((\w+)\)', ['take(\\1)']), (r'\.\.=', ['..']), (r'\bOk\(_\)', ['Err(_)']), (r'nr_constraints\(\)', ['nr_rows()']),
 (r'nr_rows\(\)', ['nr_columns()']), (r'row\b', ['column']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'!', ['']), (r'^(\s*)[a-z_.\[\]]+[^=]*;$', ['\\1']), (r'^(\s*)[a-z_.\[\]*]+ [-+]?= .*;$', ['\\1']), (r'^(\s*)\.[a-z_]+\(.*\)$', ['\\1']),
 (r'\|\((\w+), (\w+)\)\|', ['|(\\2, \\1)|']), (r'-(?=[a-z&])', ['']), (r'\.abs\(\)', ['']), (r'binary_search', ['linear_search'])]
sites = []
for f in glob.glob(f'{W}/repo/src/**/*.rs', recursive=True):
    rel = f[len(W) + 6:]
    if '/test' in rel or rel.endswith('test.rs') or focus not in rel: continue
    L = open(f).read().split('\n')
    depth_assert = 0
    infmt = False
    for i, l in enumerate(L):
        if '#[cfg(test)]' in l: break
        t = l.strip()
        if 'fn fmt' in l: infmt = True
        if t.startswith('//') or t.startswith('use ') or t.startswith('#') or t.startswith('pub fn') or t.startswith('fn ') or t.startswith('where') or t.startswith('for<') or t.startswith('impl'): continue
        if infmt:
            if l.startswith('    }'): infmt = False
            continue
        if 'debug_assert' in l and not t.endswith(';'): depth_assert = 1
        if depth_assert or 'debug_assert' in l or 'write!' in l or 'panic!' in l or 'Output' in l or 'Error::new' in l:
            if t.endswith(';'): depth_assert = 0
            continue
        for a, bs in OPS:
            for m in re.finditer(a, l):
                for b in bs:
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l: sites.append((f, rel, i, l, new))
byfile = {}
for s in sites: byfile.setdefault(s[1], []).append(s)
files = sorted(byfile)
w = [len(byfile[f]) ** 0.7 for f in files]
print(len(sites), 'sites in', len(files), 'files', flush=True)
env = dict(os.environ, VERIF_SEED=str(100 + seed), VERIF_FRACTION='12', VERIF_REPO=f'{W}/repo', RUSTUP_TOOLCHAIN='nightly-2025-03-01', CARGO_NET_OFFLINE='true', RUSTFLAGS='--cfg relp_verif')
def order(rel):
    e2e = ['C05', 'C03', 'C04', 'C06', 'C02', 'C22', 'C01', 'C13', 'C20']
    sx = ['C12', 'C08', 'C10', 'C09', 'C07', 'C11', 'C23']
    mps = ['C15', 'C16', 'C18', 'C17']
    rest = ['C19', 'C14']
    if '/io/' in rel: return mps + ['C01']
    if 'linear_algebra' in rel: return rest + sx + e2e + ['C18', 'C15']
    if 'network' in rel: return ['C14', 'C19']
    if 'general_form' in rel or 'matrix_data' in rel: return e2e + ['C18', 'C12', 'C23']
    return sx + rest + e2e
tenv = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='nightly-2025-03-01', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
tenv.pop('CARGO_TARGET_DIR', None)
def passes():
    """Whether the tests of the library pass: no answer within a few minutes is a failure as well."""
    for a in ['--workspace --profile vp-unit', '--package relp --all-features --release --test mod --profile vp-int']:
        try:
            r = subprocess.run(f'timeout -k 5 240 cargo nextest run {a} --offline --no-tests pass --fail-fast --tool-config-file vp:/opt/vp/nextest.toml', shell=True, cwd=f'{W}/repo', env=tenv, capture_output=True, text=True)
        except subprocess.TimeoutExpired: return False
        if r.returncode:
            return False
    return True
print('tests pass on the unchanged copy:', passes(), flush=True)
done = set()
for k in range(count):
    while True:
        f, rel, i, l, new = R.choice(byfile[R.choices(files, w)[0]])
        if (rel, i, new) not in done: break
    done.add((rel, i, new))
    src = open(f).read()
    L = src.split('\n'); L[i] = new
    open(f, 'w').write('\n'.join(L))
    t0 = time.time()
    res = dict(file=rel, line=i + 1, old=l.strip(), new=new.strip())
    b = subprocess.run(['cargo', 'build', '--release', '--locked', '--all-features', '--bins'], cwd=f'{W}/harness', env=dict(env), capture_output=True, text=True)
    if b.returncode:
        res['result'] = 'build'
    else:
        res['result'] = 'SURVIVED'
        res['odd'] = []
        for c in order(rel):
            try:
                binary = 'e2e' if c in 'C01 C02 C03 C04 C05 C06 C13 C20 C21 C22' else 'simplex' if c in 'C07 C08 C09 C10 C11 C12 C23' else 'mps' if c in 'C15 C16 C17 C18' else 'linalg' if c == 'C19' else 'net'
                r = subprocess.run(['bash', '-c', f'ulimit -v 3000000; exec target/release/{binary} {c} quick'], cwd=f'{W}/harness', env=dict(env, VERIF_DIR=W), capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                res['odd'].append((c, 'timeout')); continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                res['result'] = c; break
            if r.returncode != 0: res['odd'].append((c, r.returncode, r.stdout[-200:]))
        if res['result'] == 'SURVIVED': res['tests'] = passes()
    res['secs'] = round(time.time() - t0)
    open(f, 'w').write(src)
    if res['result'] != 'build':
        open(out, 'a').write(json.dumps(res) + '\n')
shutil.rmtree(W, ignore_errors=True)
