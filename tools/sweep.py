#!/usr/bin/env python3
"""Development aid (no check uses it): small random changes to /repo's sources, to find what no check notices.

  sweep.py SEED COUNT OUT [FILE...]    for each change: copies /repo, applies it, and runs the checks until one reports it"""
import json, os, random, re, shutil, subprocess, sys
FILES = {
 'index.js': 'C17 C07 C08 C12 C15 C01 C02 C14',
 'src/yencode.cc': 'C12 C15 C11 C03 C04 C06 C01 C09 C10',
 'src/decoder.cc': 'C03 C01 C02 C09', 'src/decoder_common.h': 'C03 C01 C02 C09',
 'src/decoder_sse_base.h': 'C03 C01 C02 C09', 'src/decoder_avx2_base.h': 'C03 C01 C02 C09',
 'src/encoder.cc': 'C04 C05 C09', 'src/encoder_common.h': 'C04 C05 C09',
 'src/encoder_sse_base.h': 'C04 C05 C09', 'src/encoder_avx_base.h': 'C04 C05 C09',
 'src/crc.cc': 'C06 C09 C13', 'src/crc.h': 'C06 C07', 'src/crc_folding.cc': 'C06 C09', 'src/crc_folding_256.cc': 'C06 C09',
 'src/platform.cc': 'C13 C18',
}
# other machines' code: only with `far` as the file
FAR = {f: 'C18' for f in ('src/decoder_neon.cc src/decoder_neon64.cc src/decoder_rvv.cc src/encoder_neon.cc src/encoder_rvv.cc '
  'src/crc_arm.cc src/crc_arm_pmull.cc src/crc_riscv.cc').split()}
OPS = [
 (r'(?<![\w.])(\d+)(?![\w.])', lambda m, r: str(int(m.group(1)) + r.choice([-1, 1]))),
 (r'<=', '<'), (r'>=', '>'), (r'(?<![<\-])<(?![<=])(?=[ \w-])', '<='), (r'==', '!='), (r'!=', '=='),
 (r'&&', '||'), (r'\|\|', '&&'), (r'(?<!\+)\+(?![+=])', '-'), (r'\+=', '-='), (r'-=', '+='),
 (r'(\w)A\b', r'\1B'), (r'(\w)B\b', r'\1A'), (r'>>', '<<'), (r'<<', '>>'), (r"'\\r'", "'\\\\n'"), (r"'\.'", "'y'"), (r'\|', '&'), (r' & ', ' | '),
 ('DEL', None), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
]
REST = []
def live(path):
    far = path[6:] in FAR or REST
    """lines worth changing: not comments, not preprocessor, not other platforms"""
    out = []; skip = 0; com = False
    st = []
    for n, l in enumerate(open(path).read().split('\n')):
        s = l.strip()
        if com:
            if '*/' in s: com = False
            continue
        if s.startswith('/*') and '*/' not in s: com = True; continue
        if re.match(r'#\s*if', s): st.append(not far and bool(re.search(r'defined\(_MSC_VER\)(?!.*__GNUC__)|__tune_|^#\s*if 0|DBG_|NODE_VERSION|ARM|riscv|__BIG|AVX512|VBMI', s)) and not re.search(r'NODE_VERSION_AT_LEAST', s)); continue
        if re.match(r'#\s*el', s):
            if st and not far: st[-1] = True
            continue
        if re.match(r'#\s*endif', s):
            if st: st.pop()
            continue
        if not s or s.startswith('//') or s.startswith('#') or any(st): continue
        if re.match(r'^[{}\s;]*$', s) or s.startswith('template') or s.startswith('static') or s.startswith('namespace') or 'ASSUME' in s or 'LIKELIHOOD(0' in s and False: continue
        out.append(n)
    return out
def main():
    seed, count, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or list(FILES)
    rest = files == ['rest']
    if files == ['far']: files = list(FAR)
    if rest: # what the ordinary sweep leaves out: other compilers' and machines' branches
        files = [f for f in os.listdir('/repo/src') if f not in ('yencode.cc', 'hedley.h', 'test_alignalloc.cc')]
        files = ['src/' + f for f in sorted(files) if 'src/' + f not in FAR]
        for f in files: FILES[f] = ('C04 ' if 'enc' in f and 'dec' not in f else 'C03 ' if 'dec' in f else 'C06 ' if 'crc' in f else '') + 'C13 C18'
    FILES.update(FAR)
    r = random.Random(seed)
    log = open(outp, 'a')
    done = 0
    while done < count:
        f = r.choice(files)
        src = open('/repo/' + f).read().split('\n')
        lines = live('/repo/' + f)
        if rest:
            REST[:] = [1]; more = live('/repo/' + f); REST[:] = []
            lines = [x for x in more if x not in lines]
            if not lines: continue
        n = r.choice(lines); l = src[n]
        code = re.sub(r'//.*', '', l)
        pat, rep = r.choice(OPS)
        if pat == 'DEL':
            if not code.strip().endswith(';') or re.search(r'\b(return|const|int|size_t|__m\w+|uint\w+|var)\b', code) : continue
            new = re.match(r'\s*', l).group(0) + ';'
        else:
            ms = list(re.finditer(pat, code))
            if not ms: continue
            m = r.choice(ms)
            new = code[:m.start()] + (rep(m, r) if callable(rep) else m.expand(rep)) + code[m.end():]
        if new == l: continue
        d = f'/tmp/w/sw{seed}'
        subprocess.run(['rm', '-rf', d]); subprocess.run(['cp', '-a', '/repo', d])
        src[n] = new
        open(f'{d}/{f}', 'w').write('\n'.join(src))
        res = 'MISSED'
        for c in FILES[f].split():
            p = subprocess.run(f'YSIM_REPO={d} timeout 300 /verif/check {c}', shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1: res = 'caught ' + c; break
            if p.returncode != 0: res = 'nobuild' if 'error' in p.stdout else f'{c} exit {p.returncode} ' + p.stdout[-300:]; break
        if res == 'MISSED' and (f in FAR or rest):
            j = json.load(open('/verif/evidence/C18.json'))
            left = j.get('coverage', {}).get('configurations_left_out') or j.get('configurations_left_out') or {}
            if left: res = 'nobuild ' + ' '.join(left)
        log.write(f'{res} | {f}:{n+1}\n   - {l.strip()}\n   + {new.strip()}\n'); log.flush()
        shutil.rmtree(d, ignore_errors=True)
        if res != 'nobuild': done += 1
main()
