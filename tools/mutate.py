#!/usr/bin/env python3
"""Mutation runs: applies small textual changes to a copy of the repository and runs the
checks of the properties anchored there (plain build only). Lists the survivors.
   mutate.py OUTDIR WORKERS N_PER_FILE SEED [FILE...]
Works on copies under OUTDIR (outside /repo and /verif); never touches /repo."""
import sys, os, re, random, subprocess, shutil, json, time, hashlib, glob
import concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 'datas/allocator_hybrid.hpp': 'C21', 'datas/base_128.hpp': 'C03', 'datas/binreader_ref.hpp': 'C01', 'datas/binreader_stream.hpp': 'C01', 'datas/binreader.hpp': 'C01',
 'datas/binwritter_ref.hpp': 'C01', 'datas/binwritter_stream.hpp': 'C01', 'datas/binwritter.hpp': 'C01', 'datas/bitfield.hpp': 'C04', 'datas/deleter_hybrid.hpp': 'C21',
 'datas/directory_scanner.hpp': 'C15', 'datas/directory_scanner.cpp': 'C15', 'datas/endian.hpp': 'C02', 'datas/except.hpp': 'C32', 'datas/fileinfo.hpp': 'C14',
 'datas/flags.hpp': 'C04', 'datas/float.hpp': 'C05', 'datas/jenkinshash.hpp': 'C17', 'datas/jenkinshash3.hpp': 'C17', 'datas/macroLoop.hpp': 'C32',
 'datas/master_printer.hpp': 'C18', 'datas/master_printer.cpp': 'C18', 'datas/matrix44.hpp': 'C20', 'datas/matrix44.cpp': 'C20', 'datas/multi_thread.hpp': 'C19',
 'datas/pointer.hpp': 'C22', 'datas/pugiex.hpp': 'C31', 'datas/refl_array.hpp': 'C09 C07', 'datas/reflector.hpp': 'C09 C07 C08', 'datas/reflector.cpp': 'C07 C08 C09 C10',
 'datas/reflector_io.hpp': 'C10 C11', 'datas/reflector_io.cpp': 'C10 C11', 'datas/reflector_xml.cpp': 'C12', 'datas/settings_manager.hpp': 'C30', 'datas/stat.hpp': 'C15',
 'datas/string_view.hpp': 'C13', 'datas/supercore.hpp': 'C32', 'datas/tchar.hpp': 'C16 C30', 'datas/unicode.hpp': 'C16', 'datas/vectors.hpp': 'C20', 'datas/vectors_simd.hpp': 'C20',
 'datas/vectors_stream.hpp': 'C20', 'datas/vectors_string.hpp': 'C20', 'datas/zip_vfs.hpp': 'C23', 'formats/ZIP_istream.inl': 'C23', 'formats/ZIP_ostream.inl': 'C23', 'formats/ZIP.hpp': 'C23',
 'datas/encrypt/blowfish.cpp': 'C24', 'datas/encrypt/xorenc.hpp': 'C24', 'formats/BlockDecoder.inl': 'C25', 'formats/BlockDecoderSimd.hpp': 'C25', 'formats/DDS.hpp': 'C26',
 'formats/addr_ps3.hpp': 'C27', 'formats/WAVE.hpp': 'C29', 'formats/FWSE.hpp': 'C29', 'formats/MSF.hpp': 'C29', 'formats/VAG.hpp': 'C29', 'formats/XVAG.hpp': 'C29',
 'uni/format.hpp': 'C06', 'uni/uni_format.cpp': 'C06', 'uni/list.hpp': 'C21', 'uni/list_vector.hpp': 'C21', 'uni/common.hpp': 'C21', 'uni/virtual_iterator.hpp': 'C21',
 'uni/model.hpp': 'C28', 'uni/motion.hpp': 'C28', 'uni/skeleton.hpp': 'C28', 'uni/rts.hpp': 'C28',
}
MAP.update({'datas/internal/' + k: v for k, v in {'bincore.hpp': 'C01', 'bincore_endian.hpp': 'C01', 'bincore_file.hpp': 'C01', 'bincore_navi.hpp': 'C01', 'bitfield.inl': 'C04',
 'master_printer_ix.inl': 'C18', 'reflector.inl': 'C09 C07', 'reflector_class.hpp': 'C09 C07', 'reflector_class_reg.hpp': 'C09', 'reflector_enum.hpp': 'C09', 'reflector_enum_reg.hpp': 'C09',
 'reflector_reg.hpp': 'C09', 'reflector_type.hpp': 'C09 C08', 'stat_ix.inl': 'C15', 'string_view.inl': 'C13'}.items()})
MAP.update({'uni/internal/' + k: v for k, v in {'exception.hpp': 'C28', 'format_full.hpp': 'C06', 'model.inl': 'C28', 'motion.inl': 'C28', 'skeleton.inl': 'C28'}.items()})
out, workers, nper, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
os.makedirs(out, exist_ok=True)
BASE = out + '/base/'
shutil.rmtree(BASE, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', BASE])
files = sys.argv[5:] or [f for f in MAP if MAP[f] and os.path.exists(BASE + f)]
rnd = random.Random(seed)
OPS = [
 (r'(?<![<>=!\-])<=', ['<']), (r'(?<![<>=!\-])>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
 (r'(?<=[\w\)\]]) < (?=[\w\(])', [' <= ']), (r'(?<=[\w\)\]]) > (?=[\w\(])', [' >= ']),
 (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']), (r' & ', [' | ']), (r' \| ', [' & ']), (r' \^ ', [' | ']),
 (r' << ', [' >> ']), (r' >> ', [' << ']), (r'\+\+', ['--']), (r' \+= ', [' = ', ' -= ']), (r' \|= ', [' = ']), (r' &= ', [' = ']), (r' \^= ', [' = ']), (r' -= ', [' += ']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[\w\(])', ['']), (r'\bsize_t\b', ['uint8', 'uint16', 'int8']), (r'\buint64\b', ['uint32', 'int64']), (r'\bint64\b', ['int32', 'uint64']),
 (r'\buint32\b', ['uint16', 'uint8', 'int32']), (r'\bint32\b', ['int16']), (r'\buint16\b', ['uint8', 'int16']), (r'\bint16\b', ['uint16', 'int8']), (r'\buint8\b', ['int8']), (r'\bfloat\b', ['int', 'double']), (r'\bdouble\b', ['float']),
 (r'\b0x[0-9a-fA-F]+\b', ['N']), (r'(?<![\w.])\d+(?![\w.x])', ['N']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']),
 (r"'.'", ["'\\\\1'"]), (r'\bbegin\(\)', ['end()']), (r'\bfirst\b', ['second']), (r'\b[XYZW]\b', ['V']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']),
]
def mutants(f):
    t = open(BASE + f, newline='', errors='surrogateescape').read().split('\n')
    r, comment = [], False
    for i, l in enumerate(t):
        s = l.strip()
        if comment:
            if '*/' in s: comment = False
            continue
        if s.startswith('/*'):
            comment = '*/' not in s
            continue
        if s.startswith('//') or s.startswith('#include') or s.startswith('#pragma') or s.startswith('#if') or s.startswith('#e') or s.startswith('static_assert') or 'ES_STATIC_ASSERT' in s or not s: continue
        code = l.split(' //')[0]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                if '"' in code and code[:m.start()].count('"') % 2: continue
                for rep in reps:
                    x = rep
                    if rep == 'N':
                        v = int(m.group(0), 0) if not re.match(r'0\d', m.group(0)) else int(m.group(0), 8)
                        c = [v + 1, v - 1 if v else 2]
                        x = str(rnd.choice(c))
                    elif rep == 'V': x = rnd.choice([q for q in 'XYZW' if q != m.group(0)])
                    elif rep == "'\\\\1'": x = "'\\1'"
                    r.append((i, l[:m.start()] + x + l[m.end():]))
        if re.match(r'^\s*[\w\.\->\*\(\)\[\]:<>, &]+(\+\+|--|=.*|\(.*\));\s*$', code) and not re.match(r'^\s*(return|const|static|auto|using|typedef|case|u?int|size_t|uint|for|if|constexpr|template)\b', code):
            r.append((i, re.match(r'\s*', l).group(0) + ';' + ('\r' if l.endswith('\r') else '')))
    return t, r
KEY = set("""if else for while do return const static auto void bool int char short long float double unsigned signed size_t template typename class struct union public private protected
 virtual override using namespace operator this new delete sizeof true false nullptr break continue switch case default std es int8 uint8 int16 uint16 int32 uint32 int64 uint64 constexpr inline""".split())
def mutants2(f):
    """Larger changes: other names of the neighbourhood, swapped arguments and lines, decided conditions, kept locals, copies for references."""
    t = open(BASE + f, newline='', errors='surrogateescape').read().split('\n')
    r, comment = [], False
    code = []
    for i, l in enumerate(t):
        s = l.strip()
        c = l.split(' //')[0].rstrip('\r')
        if comment or s.startswith('/*'):
            comment = '*/' not in s
            c = ''
        if s.startswith(('//', '#', 'static_assert', 'ES_STATIC_ASSERT')): c = ''
        code.append(c)
    for i, c in enumerate(code):
        s = c.strip()
        if not s: continue
        end = '\r' if t[i].endswith('\r') else ''
        def put(n): r.append((i, n + end))
        near = set(re.findall(r'(?<![\w"])[A-Za-z_]\w*', ' '.join(re.sub(r'"[^"]*"', '', x) for x in code[max(0, i - 8):i + 4]))) - KEY
        for m in re.finditer(r'(?<![\w"])[A-Za-z_]\w*', c):
            if m.group(0) in KEY or c[:m.start()].count('"') % 2: continue
            call = c[m.end():].startswith('(')
            o = [n for n in near if n != m.group(0) and n[0].islower() == m.group(0)[0].islower()]
            if o: put(c[:m.start()] + rnd.choice(o) + c[m.end():])
        for m in re.finditer(r'(\w+)\(([^(),]+), ([^(),]+)\)', c):
            if m.group(2) != m.group(3): put(c[:m.start()] + f'{m.group(1)}({m.group(3)}, {m.group(2)})' + c[m.end():])
        for m in re.finditer(r'if \((.*)\) ?(\{?)$', c):
            for w in ('true', 'false'):
                for _ in range(2): put(c[:m.start()] + f'if ({w}) ' + m.group(2))
        for m in re.finditer(r'\} else \{$', c): put(c[:m.start()] + '} {')
        for m in re.finditer(r'\?', c):
            k = c.find(' : ', m.end())
            if k > 0: put(c[:m.start()] + '&& false ?' + c[m.end():]); put(c[:m.start()] + '|| true ?' + c[m.end():])
        m = re.match(r'^(\s+)((const )?(auto|u?int\d*|size_t|bool|float|std::string|T|C|char) \w+ = .*;)$', c)
        if m:
            for _ in range(2): put(m.group(1) + 'static ' + m.group(2))
        if re.search(r'\bauto &', c):
            for _ in range(2): put(re.sub(r'\bauto &', 'auto ', c))
        if i + 1 < len(code) and s.endswith(';') and code[i + 1].strip().endswith(';') and s != code[i + 1].strip():
            r.append((i, code[i + 1] + '\n' + c + end, 2))
        if re.match(r'^return [^;]+;$', s) and i + 1 < len(code): put(re.sub(r'return ', 'return 1 + ', c))
    return t, r
if os.environ.get('MUT_OPS') == '2': mutants = mutants2
sys.path.insert(0, V)
os.makedirs(out, exist_ok=True)
jobs = []
for f in files:
    t, r = mutants(f)
    rnd.shuffle(r)
    for i, nl, *n in r[:nper]:
        jobs.append((f, i, t[i], nl, (n or [1])[0]))
rnd.shuffle(jobs)
print(len(jobs), 'mutants', flush=True)
import queue
slots = queue.Queue()
for w in range(workers):
    d = f'{out}/w{w}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(['git', 'clone', '-q', BASE, d + '/repo'])
    subprocess.check_call(['rsync', '-a', '--exclude', 'build', '--exclude', '.git', '--exclude', 'seeded', V + '/', d + '/verif/'])
    slots.put(d)
def one(j):
    f, i, old, new, lines = j
    d = slots.get()
    try:
        p = d + '/repo/' + f
        t = open(BASE + f, newline='', errors='surrogateescape').read().split('\n')
        if t[i] != old: return j, 'skip', ''
        t[i:i + lines] = [new]
        open(p, 'w', newline='', errors='surrogateescape').write('\n'.join(t))
        st, det = 'SURVIVED', ''
        for c in MAP[f].split():
            e = dict(os.environ, PBT_REPO=d + '/repo', PBT_FAST='1', PBT_VARIANTS='rel', VERIF_SEED='1', VERIF_TIER='quick')
            try:
                r = subprocess.run(['./check.py', c], cwd=d + '/verif', env=e, capture_output=True, text=True, timeout=240, errors='replace')
            except subprocess.TimeoutExpired:
                st = 'killed-timeout'; break
            if 'BUILD-ERROR' in r.stdout: st = 'invalid'; break
            if r.returncode == 1: st = 'killed'; break
            if r.returncode != 0: st = 'killed-err'; det = r.stdout[-300:]; break
            if 'UNCONFIRMED' in r.stdout: st = 'killed-flaky'; break
        subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
        return j, st, det
    finally:
        slots.put(d)
cnt = {}
with cf.ThreadPoolExecutor(workers) as ex, open(out + '/survivors.txt', 'a') as so:
    for j, st, det in ex.map(one, jobs):
        cnt[st] = cnt.get(st, 0) + 1
        if st in ('SURVIVED', 'killed-err'):
            so.write(f'{st} {j[0]}:{j[1]+1}\n- {j[2].strip()}\n+ {j[3].strip()}\n{det}\n'); so.flush()
        if sum(cnt.values()) % 20 == 0: print(cnt, flush=True)
print(cnt)
for w in range(workers): shutil.rmtree(f'{out}/w{w}', ignore_errors=True)
