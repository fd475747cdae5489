#!/usr/bin/env python3
"""Mutation sweep: small changes to scratch copies of the tree, to find behaviour no check watches.

mutate.py list                    all mutants
mutate.py run N OF SEED LIMIT     worker N of OF: judge its share of a random sample, append to /tmp/m/result-N.jsonl
"""
import json, os, random, re, subprocess, sys, time, shutil, glob
REPO = '/repo'
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

def sources():
    out = []
    for root in ('contracts', 'packages'):
        for p in glob.glob(f'{REPO}/{root}/**/src/**/*.rs', recursive=True):
            if '/tests/' in p or p.endswith('/test.rs') or p.endswith('tests.rs') or '/mocks/' in p or 'packages/schema' in p or 'packages/test-utils' in p or 'fuelvm' in p:
                continue
            out.append(os.path.relpath(p, REPO))
    return sorted(out)

def body(text):
    """length of the part before the inline test module"""
    m = re.search(r'#\[cfg\(test\)\]\s*(pub )?mod \w+ *\{', text)
    return m.start() if m else len(text)

def close(text, i):
    """index after the bracket closing the one at i"""
    d = 0; j = i; s = None
    pairs = '([{'; ends = ')]}'
    while j < len(text):
        ch = text[j]
        if s:
            if ch == '\\': j += 1
            elif ch == '"': s = None
        elif ch == '"': s = '"'
        elif ch in pairs: d += 1
        elif ch in ends:
            d -= 1
            if d == 0: return j + 1
        j += 1
    return None

SWAPS = [(r'(?<![=!<>+\-*/&|])==(?!=)', ['!=']), (r'!=', ['==']), (r'(?<= )<(?= )', ['<=', '>']), (r'(?<= )>(?= )', ['>=', '<']),
         (r'(?<= )<=(?= )', ['<']), (r'(?<= )>=(?= )', ['>']), (r'&&', ['||']), (r'(?<=[\w)] )\|\|(?= [\w!(])', ['&&']),
         (r'(?<=[\w)] )\+(?= [\w(])', ['-']), (r'(?<=[\w)] )-(?= [\w(])', ['+']), (r'(?<=[\w)] )\*(?= [\w(])', ['/']),
         (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
         (r'(?<![\w.#"])\d+(?![\w.]*"|\w)', ['+1', '-1']),
         (r'Order::Ascending', ['Order::Descending']), (r'exclusive\(', ['inclusive(']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
         (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\.first\(\)', ['.last()']), (r'\.rev\(\)', ['']), (r'\.unwrap_or\(', ['.map(|_| Default::default()).unwrap_or(']),
         (r'(?<=[ (])!(?=[a-z])', ['']), (r'\.is_empty\(\)', ['.len() == 1', '.len() != 0']),
         (r'checked_add', ['checked_sub']), (r'checked_sub', ['checked_add']), (r'checked_mul', ['checked_add']), (r'\.saturating_sub\(', ['.wrapping_add(']),
         (r'checked_\w+\(', None),
         (r'info\.sender', ['env.contract.address']), (r'env\.contract\.address', ['info.sender']),
         (r'\bto_be_bytes\b', ['to_le_bytes']), (r'\bfrom_be_bytes\b', ['from_le_bytes']),
         (r'\borigin_domain\b', ['dest_domain']), (r'\bdest_domain\b', ['origin_domain']), (r'\bdestination\b(?!:)', ['origin']),
         (r'\bmsg\.sender\b', ['msg.recipient']), (r'\bmsg\.recipient\b', ['msg.sender']), (r'\bdecoded_msg\.(\w+)', None),
         (r'\brequired_hook\b', ['default_hook']), (r'\.unwrap_or_default\(\)', ['.unwrap()']), (r'\?;', None)]
DROPS = [r'\.add_attribute\(', r'\.add_attributes\(', r'\.add_message\(', r'\.add_messages\(', r'\.add_event\(', r'\.set_data\(', r'\.filter\(', r'\.take\(', r'\.skip\(', r'\.trim\(', r'\.to_lowercase\(']

def mutants(rel):
    t = open(f'{REPO}/{rel}').read(); n = body(t); out = []
    comment = [(m.start(), m.end()) for m in re.finditer(r'//[^\n]*|#!?\[[^\n]*\]|^(pub )?use [^;]*;|"(?:[^"\\\n]|\\.)*"', t[:n], re.M)]
    def skip(i): return any(a <= i < b for a, b in comment)
    def add(i, j, new, kind):
        if t[i:j] != new: out.append((rel, i, j, new, kind))
    for pat, reps in SWAPS:
        if reps is None: continue
        for m in re.finditer(pat, t[:n]):
            if skip(m.start()): continue
            for r in reps:
                if r in ('+1', '-1'):
                    v = int(m.group()) + int(r)
                    if v < 0: continue
                    r = str(v)
                add(m.start(), m.end(), r, 'swap')
    for pat in DROPS:
        for m in re.finditer(pat, t[:n]):
            if skip(m.start()): continue
            e = close(t, m.end() - 1)
            if e: add(m.start(), e, '', 'drop-call')
    for m in re.finditer(r'^[ \t]+(ensure\w*!|[\w.:&()*]+\([^\n]*|[A-Z_]+\s*\.\w+\(|[A-Z_]+\n|\w+\n|assert\w*!|if [^\n]*return)', t[:n], re.M):
        # a whole statement, up to its semicolon at depth 0
        i = m.start(); 
        if skip(i + len(m.group()) - len(m.group().lstrip())): continue
        prev = t[:i].rstrip()[-1:]
        if prev not in '{};': continue
        d = 0; j = i; s = False
        while j < n:
            ch = t[j]
            if s:
                if ch == '\\': j += 1
                elif ch == '"': s = False
            elif ch == '"': s = True
            elif ch in '([{': d += 1
            elif ch in ')]}':
                d -= 1
                if d < 0: break
            elif ch == ';' and d == 0: break
            j += 1
        if j < n and t[j] == ';' and d == 0 and j - i < 900:
            st = t[i:j].lstrip()
            if st.startswith(('use ', 'pub ', 'fn ', 'let ', 'return', 'mod ', 'const ', 'type ')): continue
            add(i, j + 1, '', 'drop-statement')
    # let x = if / Some(..) to None
    for m in re.finditer(r'(?<![\w:])Some\(', t[:n]):
        if skip(m.start()): continue
        e = close(t, m.end() - 1)
        if e and not re.match(r'\s*(=>|=[^=]|\|)', t[e:]): add(m.start(), e, 'None', 'none')
    # swap two simple arguments of a call
    for m in re.finditer(r'\((&?\w[\w.&]*), (&?\w[\w.&]*)([,)])', t[:n]):
        if skip(m.start()) or m.group(1) == m.group(2) or 'deps' in m.group(1) or 'storage' in m.group(1): continue
        add(m.start(1), m.end(2), f'{m.group(2)}, {m.group(1)}', 'swap-args')
    return out

def every():
    o = []
    for s in sources(): o += mutants(s)
    return o

ORDER = {'core/mailbox': 'C01 C02 C03 C04 C28 C30 C26 C29 C11 C13 C21', 'core/va': 'C21 C27 C29', 'hooks/aggregate': 'C16 C30 C11 C29', 'hooks/fee': 'C17 C11 C30 C29',
 'hooks/merkle': 'C05 C26 C27 C30 C11', 'hooks/pausable': 'C09 C30 C11', 'hooks/routing/': 'C15 C24 C30 C11', 'hooks/routing-fallback': 'C15 C24 C11', 'hooks/routing-custom': 'C15 C24 C11',
 'igps/core': 'C12 C13 C26 C24 C11 C30', 'igps/oracle': 'C14 C24 C11', 'isms/aggregate': 'C07 C27 C11', 'isms/multisig': 'C06 C27 C11', 'isms/pausable': 'C09 C11', 'isms/routing': 'C08 C24 C27 C11',
 'warp/cw20': 'C18 C19 C20 C28 C29', 'warp/native': 'C18 C19 C20 C28 C29', 'packages/connection': 'C28 C29 C11', 'packages/ownable': 'C10 C11', 'packages/pausable': 'C09', 'packages/router': 'C24 C19 C20 C11',
 'packages/utils': 'C25', 'interface/src/types': 'C22 C23 C31 C27 C06', 'interface': 'C30 C27 C18'}
CASES = None
def quick_cases():
    d = {}
    for f in glob.glob(V + '/harness/src/props/c*.rs') + glob.glob(V + '/harness/src/lib/c*.rs'):
        m = re.search(r'quick: (\d+)', open(f).read())
        if m: d[os.path.basename(f)[:-3].upper()] = int(m.group(1))
    return d

def sh(cmd, env=None, timeout=600, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=cwd)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, ''

def pkg(rel):
    d = os.path.dirname(f'{REPO}/{rel}')
    while not os.path.exists(d + '/Cargo.toml'): d = os.path.dirname(d)
    return re.search(r'^name\s*=\s*"(.*?)"', open(d + '/Cargo.toml').read(), re.M).group(1)

def run(N, of, seed, limit, only=None):
    B = f'/tmp/m/{N}'; os.makedirs(B, exist_ok=True)
    subprocess.run(['bash', '-c', f'''set -e
[ -d {B}/repo ] || git clone -q /repo {B}/repo
git -C {B}/repo fetch -q origin; git -C {B}/repo checkout -q -- .; git -C {B}/repo reset -q --hard origin/HEAD; cp /repo/Cargo.lock {B}/repo/Cargo.lock
mkdir -p {B}/verif; rsync -a --delete --exclude target {V}/harness/ {B}/verif/harness/ 2>/dev/null || (rm -rf {B}/verif/harness; cp -r {V}/harness {B}/verif/harness)
cp {V}/run.sh {V}/build.sh {V}/KNOWN_FINDINGS {B}/verif/
sed -i 's#"/repo/#"{B}/repo/#' {B}/verif/harness/Cargo.toml'''], check=True)
    env = dict(os.environ, CARGO_BUILD_JOBS='3', HPLMON_BASE=f'{B}/verif', VERIF_SEED='5', VERIF_TIER='quick')
    q = quick_cases(); checks = sorted(q)
    ms = every()
    if only: ms = [m for m in ms if re.search(only, m[0])]
    random.Random(seed).shuffle(ms); ms = ms[:limit]
    res = f'/tmp/m/result-{seed}-{N}.jsonl'
    done = set()
    if os.path.exists(res):
        for l in open(res):
            d = json.loads(l); done.add((d['file'], d['at'], d['new'], d['kind']))
    for k, (rel, i, j, new, kind) in enumerate(ms):
        if k % of != N or (rel, i, new, kind) in done: continue
        t0 = time.time()
        p = f'{B}/repo/{rel}'; t = open(f'{REPO}/{rel}').read()
        open(p, 'w').write(t[:i] + new + t[j:])
        line = t[:i].count('\n') + 1
        rec = dict(file=rel, line=line, at=i, old=t[i:j], new=new, kind=kind)
        benv = dict(env, HOME='/root', RUSTUP_TOOLCHAIN='1.98.1-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', RUSTC_WRAPPER='', DOCS_RS='1', CARGO_TARGET_DIR=f'{B}/target', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='128', CARGO_TERM_COLOR='never')
        rc, out = sh(['cargo', 'check', '--release', '--offline', '--quiet', '-p', pkg(rel)], benv, 600, f'{B}/verif/harness')
        tc = time.time() - t0
        if rc == 0: rc, out = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--bins'], benv, 900, f'{B}/verif/harness')
        tb = time.time() - t0
        if rc != 0: rec['result'] = 'no-build'
        else:
            key = next((kk for kk in ORDER if kk in rel), None)
            first = ORDER[key].split() if key else []
            order = first + [c for c in checks if c not in first]
            killer = None
            for frac in (20, 2):
                for c in (order if frac > 1 else dict.fromkeys(first + ['C27', 'C30'])):
                    b = 'hplcodec' if c in ('C22', 'C23', 'C31') else 'hplmon'
                    n = max(30, q[c] // frac)
                    rc, out = sh([f'{B}/target/release/{b}', c, '--tier', 'quick', '--seed', '5', '--cases', str(n)], env, 200)
                    if 'VIOLATION property=' in out or rc in (124, 134, 139) or rc < 0: killer = f'{c}/{frac}' + ('' if 'VIOLATION' in out else f'(rc {rc})'); break
                if killer: break
            rec['result'] = 'killed' if killer else 'survived'; rec['by'] = killer
            if not killer:
                tenv = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='1.98.1-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', DOCS_RS='1', CARGO_BUILD_JOBS='3')
                rc, out = sh(['cargo', 'test', '--workspace', '--lib', '--bins', '--test', 'validator', '--offline', '--no-fail-fast', '--', '--test-threads', '4'], tenv, 900, f'{B}/repo')
                rec['tests'] = rc; rec['pass'] = len(re.findall(r'^test .* ok$', out, re.M))
        rec['s'] = [round(tc), round(tb), round(time.time() - t0)]
        open(p, 'w').write(t)
        open(res, 'a').write(json.dumps(rec) + '\n')

if sys.argv[1] == 'list':
    e = every(); print(len(e))
    from collections import Counter
    for k, v in Counter(x[0] for x in e).most_common(): print(v, k)
else:
    run(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6] if len(sys.argv) > 6 else None)
