#!/usr/bin/env python3
"""Mutation study of the checks: small changes to one line of the library, one at a time, in scratch copies.
usage: mutate.py OUT.jsonl N_PER_FILE SEED [file-substring ...]     (never touches /repo)
Each mutant that changes the compiled code is shown to the checks of its file until one reports it; survivors
are what to look at: equivalent changes, behaviour outside the properties, or blind spots."""
import json, os, random, re, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"ring/ringbuffer.c": "C01 C02 C03 C05 C26", "ring/ring_buf.c": "C01 C02 C26", "ring/msg_queue.c": "C03 C02 C26", "ring/fixed_msg_queue.c": "C03 C02 C26",
 "ring/msg_queue_handler.c": "C04 C22 C26 C25", "ring/fixed_msg_queue_handler.c": "C04 C22 C26 C25", "ring/autocover_buffer.c": "C05 C25 C26", "thread/thpool.c": "C06 C26 C22 C25",
 "data/list.c": "C07 C22 C26", "data/hashmap.c": "C08 C22 C25 C26", "data/array.c": "C09 C22 C26", "mem/stringbuilder.c": "C09 C22 C26", "mem/mplite.c": "C10 C25 C26",
 "mem/allocator.c": "C11 C22 C26", "mem/allocation_tracker.c": "C11 C25 C26", "data/base64.c": "C12", "net/url_encoder_decoder.c": "C12", "mem/strings.c": "C13 C22", "mem/asprintf.c": "C13 C22",
 "mem/str_params.c": "C14 C22 C26", "file/ini_parser.c": "C15 C22 C26", "file/ini_reader.c": "C16 C15", "file/file_util.c": "C17 C22 C26", "file/file_iterator.c": "C17 C22 C26",
 "time/time_util.c": "C18 C25 C22 C26", "time/time_rfc1123.c": "C18", "time/time_rfc2822.c": "C18", "log/xlog.c": "C19 C20 C25 C22 C26", "log/slog.c": "C19", "log/file_logger.c": "C21 C22 C25 C26",
 "thread/portable_thread_posix.c": "C23 C22 C26", "data/integer.c": "C24", "data/hash_functions.c": "C24", "lcu.c": "C19 C26 C22"}
REL = [(r'(?<![<>=!-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![->])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<=[\w\)\]]) \+ (?=[\w\(])', ' - '), (r'(?<=[\w\)\]]) - (?=[\w\(])', ' + '), (r' [+-] 1U?\b', ''), (r'\+\+', '--'), (r'--', '++'), (r'\+=', '-='), (r'-=', '+='),
       (r'<<', '>>'), (r'>>', '<<'), (r'(?<=[\w\)\]]) & (?=[\w\(~])', ' | '), (r'(?<=[\w\)\]]) \| (?=[\w\(~])', ' & '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bcontinue;', 'break;'), (r'\bbreak;', ';'), (r'\breturn -\d+;', 'return 0;'), (r'\breturn 0;', 'return -1;'), (r'!(?=[\w\(\*])', ''), (r'~', ''),
       (r'(?<![\w.])(\d+)(?=[UL]*\b)(?![\w.x])', 'INC'), (r'(?<![\w.])(\d+)(?=[UL]*\b)(?![\w.x])', 'DEC'), (r'\bif \((.*)\)\s*$', 'NEG'), (r'^(\s*)[\w>\.\*\(\)\[\]-]+(\s*[+-]?=\s*|\().*;\s*$', 'DEL')]
SKIP = re.compile(r'^\s*(//|\*|/\*|#|.*\b(T?LOG[A-Z]*|MY_LOG\w|RING_LOG\w|err|printf|fprintf|ASSERT\w*|EXPECT\w*|assert)\s*\()|^\s*(extern|static|typedef|struct|const)\b.*[;({]\s*$')
def sites(path):
    win, depth, out = [], 0, []
    for i, l in enumerate(open(path, newline='', encoding='latin-1').read().split('\n')):
        s = l.strip()
        if s.startswith('#if'): win.append('_WIN32' in s and '!' not in s and 'ifndef' not in s or s.startswith('#if 0'))
        elif s.startswith('#el') and win: win[-1] = not win[-1] if '_WIN32' in s or win[-1] or s == '#else' and False else win[-1]
        elif s.startswith('#endif') and win: win.pop()
        if any(win) or SKIP.match(l) or l.startswith(('\r',)) or not s: continue
        if not l.startswith((' ', '\t')): continue
        code = l.split('//')[0]
        for pat, rep in REL:
            for m in re.finditer(pat, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                if rep == 'INC': new = code[:m.start()] + str(int(m[1]) + 1) + code[m.end():]
                elif rep == 'DEC':
                    if int(m[1]) == 0: continue
                    new = code[:m.start()] + str(int(m[1]) - 1) + code[m.end():]
                elif rep == 'NEG': new = code[:m.start()] + 'if (!(' + m[1] + '))' + code[m.end():]
                elif rep == 'DEL': new = m[1] + ';'
                else: new = code[:m.start()] + rep + code[m.end():]
                out.append((i, l, new + ('\r' if l.endswith('\r') and not new.endswith('\r') else '')))
    return out
def asm(repo, f):
    r = subprocess.run(f"gcc -std=gnu11 -w -O1 -S -o - -D_GNU_SOURCE -D_DEBUG -D_PLATFORM=linux -I{repo}/inc -I/repo/_build/main/generate {f}", shell=True, capture_output=True)
    return r.stdout if r.returncode == 0 else None
def one(job):
    f, (i, old, new), n = job
    d = f'/tmp/mut/w{n}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/tmp/mut/base', d], check=True)
    p = f'{d}/src/{f}'
    L = open(p, newline='', encoding='latin-1').read().split('\n'); assert L[i] == old
    L[i] = new; open(p, 'w', newline='', encoding='latin-1').write('\n'.join(L))
    a, b = asm(d, p), BASEASM[f]
    r = dict(file=f, line=i + 1, old=old.strip(), new=new.strip())
    if a is None or a == b: r['status'] = 'same' if a else 'nocompile'
    else:
        r['status'] = 'SURVIVED'; r['by'] = []
        for c in MAP[f].split():
            try: q = subprocess.run(['python3', f'{V}/run.py', c, 'quick'], env=dict(os.environ, VP_REPO=d, VP_OUT=d), capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired: r['status'] = 'timeout ' + c; break
            if q.returncode == 1: r['status'] = 'caught ' + c; break
            if q.returncode != 0: r['by'].append(f'{c}:rc{q.returncode} ' + (q.stdout + q.stderr)[-160:])
    shutil.rmtree(d, ignore_errors=True)
    return r
if __name__ == '__main__':
    out, per, seed, pats = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    shutil.rmtree('/tmp/mut/base', ignore_errors=True); os.makedirs('/tmp/mut/base')
    subprocess.run('git -C /repo archive HEAD | tar -x -C /tmp/mut/base', shell=True, check=True)
    rnd = random.Random(seed); jobs = []; BASEASM = {}
    for f in MAP:
        if pats and not any(q in f for q in pats): continue
        BASEASM[f] = asm('/tmp/mut/base', f'/tmp/mut/base/src/{f}')
        assert BASEASM[f], f
        s = sites(f'/tmp/mut/base/src/{f}'); rnd.shuffle(s)
        lines = set(); k = 0
        for x in s:
            if k >= per: break
            if sum(1 for q in lines if q == x[0]) and rnd.random() < .7: continue
            lines.add(x[0]); jobs.append((f, x, len(jobs))); k += 1
    rnd.shuffle(jobs); print(len(jobs), 'mutants', flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_PAR', '3'))) as ex, open(out, 'a') as o:
        for r in ex.map(one, jobs): o.write(json.dumps(r) + '\n'); o.flush()
