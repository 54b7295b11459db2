#!/usr/bin/env python3
"""mutate.py SIDE [--files a.rs,b.rs] [--sample N] [--seed S] [--log F]
Systematic small mutations of the sources in a side copy (SIDE/repo, SIDE/verif: copies of /repo and /verif).
Mutants that build and pass the stable tests are given to the quick checks of the properties their file is about;
survivors are printed for inspection (many are equivalent)."""
import argparse, os, random, re, subprocess, sys, time, json
CH = {
 'backgammon/backgammon_logic.rs': 'C02 C05 C04 C01 C06 C07 C09 C03',
 'backgammon/encoding.rs': 'C06',
 'tictactoe/mod.rs': 'C08 C06 C07 C09 C13',
 'mcts/node.rs': 'C14 C12 C11 C16 C13 C17 C15 C18',
 'mcts/node_store.rs': 'C14 C15 C17',
 'mcts/simple_mcts.rs': 'C14 C11 C13 C12 C16',
 'mcts/alpha_mcts.rs': 'C16 C15 C17 C19 C13 C24',
 'mcts/noise.rs': 'C19 C15',
 'mcts/utils.rs': 'C18 C17 C24 C26',
 'alphazero/alphazero.rs': 'C20 C23 C25 C22 C17 C29 C30 C28',
 'alphazero/alpha_parallel.rs': 'C24 C28',
 'alphazero/alpha_no_parallel.rs': 'C24 C28',
 'alphazero/alpha_versus.rs': 'C27 C28',
 'alphazero/nnet.rs': 'C21 C25 C22 C16',
 'versus.rs': 'C10 C26 C31 C27',
 'lib.rs': 'C29 C16',
 'main.rs': 'C30 C31 C29 C28',
}
SUB = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r'&&', '||'), (r'\|\|(?! *\{)', '&&'),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\+=', '-='), (r'-=', '+='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'-player\b', 'player'), (r'\bmin\(', 'max('), (r'\.rev\(\)', ''), (r'\bcontinue;', 'break;'), (r'\bbreak;', ''), (r'\.0\b', '.1'), (r'\.1\b', '.0'),
       (r'(?<![\w.])(\d+)(?![\w.])', 'N+1'), (r'(?<![\w.])(\d+)(?![\w.])', 'N-1'), (r'\b1\.(?!\d)', '2.'), (r'\b0\.(?!\d)', '1.'), (r'player1', 'player2'), (r'player2', 'player1'),
       (r'_p1', '_p2'), (r'_p2', '_p1'), (r'if (?!let)', 'if !'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'max_by\(', 'min_by('), (r'::Mean', '::Sum'),
       (r'\?;', None)]
SKIP = re.compile(r'^\s*(//|/\*|\*|#\[|use |pub mod|mod |println|assert|writeln)|println!|\.pb|pb\.|pb_|_pb|sty|ProgressBar|ProgressStyle|panic!|with_message|with_style|expect\(|format_tree|prefix|N_FILTERS|N_RES|set_message|enable_steady')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def mutants(src, f):
    lines = src.split('\n'); depth_skip = False
    for i, l in enumerate(lines):
        if SKIP.search(l) or not l.strip(): continue
        code = l.split('//')[0]
        for pat, rep in SUB:
            if rep is None: continue
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                r = rep
                if rep == 'N+1': r = str(int(m.group(1)) + 1)
                if rep == 'N-1':
                    if int(m.group(1)) == 0: continue
                    r = str(int(m.group(1)) - 1)
                yield i, code[:m.start()] + r + code[m.end():]
        s = code.strip()
        if s.endswith(';') and not s.startswith(('let ', 'return', '}', 'const', 'pub ', 'type ', ')', '.')) and s.count('(') == s.count(')'):
            yield i, ''
def main():
    a = argparse.ArgumentParser(); a.add_argument('side'); a.add_argument('--files'); a.add_argument('--sample', type=int, default=0); a.add_argument('--seed', type=int, default=1); a.add_argument('--log', default='/tmp/mutants.jsonl'); a.add_argument('--checks')
    o = a.parse_args()
    repo, verif = o.side + '/repo', o.side + '/verif'
    sh(f'git -C {repo} checkout -q -- .')
    todo = []
    for f in (o.files.split(',') if o.files else CH):
        src = open(f'{repo}/src/{f}').read()
        seen = set()
        for i, l in mutants(src, f):
            if (i, l) not in seen and l.strip() != src.split('\n')[i].strip():
                seen.add((i, l)); todo.append((f, i, l))
    random.Random(o.seed).shuffle(todo)
    if o.sample: todo = todo[:o.sample]
    done = set()
    if os.path.exists(o.log):
        done = {tuple(json.loads(x)['m']) for x in open(o.log)}
    print(len(todo), 'mutants', len(done), 'done', flush=True)
    n = dict(build=0, tests=0, caught=0, survived=0)
    for f, i, l in todo:
        if (f, i, l) in done: continue
        p = f'{repo}/src/{f}'; src = open(p).read(); lines = src.split('\n'); old = lines[i]; lines[i] = l
        open(p, 'w').write('\n'.join(lines))
        res = None; t = time.time()
        try:
            b = sh(f'. /opt/vp/env.sh; cd {repo} && cargo build --offline --lib --bins', timeout=600)
            if b.returncode: res = 'build'
            else:
                try: s = sh(f'timeout 120 {verif}/tools/stable.sh {repo}')
                except Exception: s = None
                if s is None or s.returncode: res = 'tests'
                else:
                    for c in (o.checks or CH[f]).split():
                        try: r = sh(f'cd {verif} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh {c} quick')
                        except Exception as e: continue
                        if r.returncode == 1 and 'VIOLATION' in r.stdout: res = 'caught by ' + c; break
                        if r.returncode not in (0, 1): res = f'BROKEN CHECK {c} rc={r.returncode} ' + (r.stdout + r.stderr)[-300:]; break
                    res = res or 'SURVIVED'
        finally:
            open(p, 'w').write(src)
            sh(f'rm -f {verif}/replays/*')
        json.dump({'m': (f, i, l), 'old': old, 'res': res, 's': round(time.time() - t)}, open(o.log, 'a')); open(o.log, 'a').write('\n')
        n[res if res in n else 'caught' if res.startswith('caught') else 'survived'] += 1
        if res.startswith(('SURV', 'BROKEN')): print(f'{res} {f}:{i+1}\n  - {old.strip()}\n  + {l.strip()}', n, flush=True)
    print(n)
main()
