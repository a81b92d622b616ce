#!/usr/bin/env python3
"""Mutation runs, to find what the checks miss (not used by any check).
usage: mutate.py LANE_DIR SEED COUNT [path filter regex]
Works in a private copy of /repo and /verif under LANE_DIR; writes LANE_DIR/log.jsonl."""
import json, os, random, re, subprocess, sys, time, glob, shutil
lane, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
filt = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
R, V = lane + '/repo', lane + '/verif'
os.makedirs(lane, exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, **k)
sh(f'mkdir -p {R} {V}; rsync -a --delete --exclude target --exclude .git /repo/ {R}/ 2>/dev/null || (cp -a /repo/. {R}/; true)')
sh(f'rsync -a --delete --exclude .git --exclude seeded --exclude evidence --exclude target /verif/ {V}/; mkdir -p {V}/evidence')
if not os.path.isdir(V + '/target'):
    sh(f'cp -a /verif/target {V}/target')
sh(f"cd {V} && grep -rl '/repo' --include=*.rs --include=*.toml --include=*.lock h_* models engine | xargs sed -i 's#\"/repo/#\"{R}/#g'")
IM = 'C26 C25 C22'
MAP = [
 (r'zune-inflate/src/(encoder|levels)', 'h_inflate C04'), (r'zune-inflate', 'h_inflate C04;h_png C05'),
 (r'zune-png/src/(encoder|headers/writers|filters/filter)', 'h_png C06 C07;h_image C25 C34'),
 (r'zune-png/src/apng', 'h_png C08 C01'),
 (r'zune-png', 'h_png C05 C06 C07 C08 C01;h_codecs C19 C20;h_image C34'),
 (r'zune-jpeg/', 'h_jpeg C09 C10 C11 C02;h_codecs C19 C20;h_image C34'),
 (r'zune-bmp', 'h_codecs C16 C03 C19 C20;h_image C34'), (r'zune-psd', 'h_codecs C17 C03 C19 C20'),
 (r'zune-qoi', 'h_codecs C12 C03 C19 C20'), (r'zune-ppm', 'h_codecs C13 C03 C19 C20'), (r'zune-hdr', 'h_codecs C15 C03 C19 C20'),
 (r'zune-farbfeld', 'h_codecs C14 C03 C19 C20'), (r'zune-jpegxl', 'h_codecs C18 C20;h_image C25'),
 (r'zune-core/src/options', 'h_core C35'), (r'zune-core/src/bytestream', 'h_core C21;h_codecs C20'), (r'zune-core', 'h_core C35 C21;h_image C26 C24'),
 (r'zune-image/src/channel', 'h_image C36 C22'), (r'zune-image/src/(image|frame|deinterleave|utils)', 'h_image C22 C36 C26 C25;h_capi C33'),
 (r'zune-image/src/core_filters/depth', 'h_image C23 C25'), (r'zune-image/src/core_filters', 'h_image C24 C26 C25'),
 (r'zune-image/src/(codecs|metadata)', 'h_codecs C38;h_image C25 C34;h_codecs C19 C20;h_cli C32;h_capi C33'),
 (r'zune-image/src/pipelines', 'h_cli C32'), (r'zune-image/src/traits', 'h_image C26 C25 C34;h_cli C32;h_capi C33'), (r'zune-image/', 'h_image C22 C26 C25'),
 (r'imageprocs/src/(crop|flip|mirror|transpose|rotate|auto_orient)', 'h_image C27 C26 C31'),
 (r'imageprocs/src/(resize|affine|interp)', 'h_image C31 C26'), (r'imageprocs/src/(composite|blend|premul)', 'h_image C30 C26'),
 (r'imageprocs/src/(box|gauss|median|bilat|convolve|sobel|scharr|spatial|unsharp|mathops|pad)', 'h_image C28 C26'),
 (r'imageprocs', 'h_image C29 C28 C30 C27 C31 C26;h_cli C32'),
 (r'zune-bin', 'h_cli C32'), (r'zune-capi', 'h_capi C33'),
]
SKIP = re.compile(r'hc_matchfinder|prewitt|show_gui|avx512|sse2|sse41|neon|wasm|python|zune-gif|/tests?[/.]|benches|errors\.rs|/build\.rs|cmd_args|portable_simd|color_transform|fuzz|examples')
OPS = [
 (r'(?<![<=\-!>])<(?![<=])(?= )', '<='), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
 (r' \+ ', ' - '), (r' - ', ' + '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'>>', '<<'), (r' << ', ' >> '),
 (r' & ', ' | '), (r' \| ', ' & '), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'\.\.=', '..'), (r'wrapping_add', 'wrapping_sub'), (r' \* ', ' + '), (r' / ', ' * '), (r' \+= ', ' -= '), (r' -= ', ' += '),
 (r'\bif (?!let)([^{]+) \{', r'if !(\1) {'), (r'\b(\d+)\b', 'INC'), (r'\b(\d+)\b', 'INC'), (r'\b(\d+)\b', 'DEC'),
 (r'^(\s*)([a-z_.\[\]*]+ (=|\+=|\|=) .*;|[a-z_.]+\(.*\);)$', r'\1/*gone*/'), (r'^(\s*)([a-z_.\[\]*]+ (=|\+=|\|=) .*;|[a-z_.]+\(.*\)\??;)$', r'\1/*gone*/'),
 (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'saturating_sub', 'wrapping_sub'), (r'checked_', 'wrapping_X'), (r'chunks_exact', 'chunks'), (r'\bw\b', 'h'), (r'\bwidth\b', 'height'),
]
rnd = random.Random(seed)
files = [f for f in glob.glob(R + '/crates/*/src/**/*.rs', recursive=True) if not SKIP.search(f) and (not filt or filt.search(f))]
def checks(f):
    for p, c in MAP:
        if re.search(p, f): return c
    return None
files = [f for f in files if checks(f)]
weight = []
for f in files:
    weight.append(min(600, len(open(f).read().splitlines())) ** 0.8 + 10)
log = open(lane + '/log.jsonl', 'a')
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCALE=os.environ.get('MUT_SCALE', '0.5'), VERIF_THREADS=os.environ.get('MUT_THREADS', '4'))
done = 0
while done < count:
    f = rnd.choices(files, weight)[0]
    src = open(f).read()
    lines = src.split('\n')
    end = next((k for k, l in enumerate(lines) if 'cfg(test)' in l or l.strip().startswith('#[test]')), len(lines))
    if end < 5: continue
    k = rnd.randrange(end)
    l = lines[k]
    if re.match(r'\s*(//|#|use |mod |pub mod|///|\*|assert|debug_assert|trace!|warn!|info!|error!|fn |pub fn )', l) or not l.strip(): continue
    if '"' in l and rnd.random() < 0.8: continue
    pat, new = rnd.choice(OPS)
    ms = list(re.finditer(pat, l))
    if not ms: continue
    m = rnd.choice(ms)
    if new in ('INC', 'DEC'):
        v = int(m.group(1)); v = v + 1 if new == 'INC' else v - 1
        if v < 0 or re.match(r'\S*[ui](8|16|32|64)', l[m.start():]) and False: continue
        t = str(v)
    else:
        t = m.expand(new)
    nl = l[:m.start()] + t + l[m.end():]
    if nl == l: continue
    lines[k] = nl
    open(f, 'w').write('\n'.join(lines))
    rel = f[len(R) + 1:]
    rec = dict(file=rel, line=k + 1, old=l.strip(), new=nl.strip(), checks=[])
    verdict = 'SURVIVED'
    t0 = time.time()
    try:
        for grp in checks(rel).split(';'):
            pkg, *ids = grp.split()
            for i in ids:
                try:
                    p = subprocess.run(['bash', V + '/check.sh', pkg, i], capture_output=True, text=True, env=env, timeout=400, errors='replace')
                    rc = p.returncode; out = p.stdout + p.stderr
                except subprocess.TimeoutExpired:
                    rc = 'timeout'; out = ''
                rec['checks'].append([i, rc])
                if 'build of' in out and rc == 2:
                    verdict = 'nobuild'; break
                if rc == 1: verdict = 'caught ' + i; break
                if rc != 0: verdict = f'odd {i} {rc}'; rec['tail'] = out[-300:]; break
            if verdict != 'SURVIVED': break
    finally:
        open(f, 'w').write(src)
    if verdict == 'nobuild': continue
    done += 1
    rec.update(verdict=verdict, secs=round(time.time() - t0))
    log.write(json.dumps(rec) + '\n'); log.flush()
    print(done, verdict, rel, k + 1, '|', rec['old'], '=>', rec['new'], rec['secs'], flush=True)
