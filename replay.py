"""Run the case recorded in a replay file again:  python3-vt replay.py FILE"""
import ast
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), '/opt/venv/lib/python3.12/site-packages', HERE]
sys.set_int_max_str_digits(0)
lines = open(sys.argv[1], encoding='utf-8').read().split('\n')
for l in lines:
    if l.startswith('#'):
        print(l)
    elif l.startswith('['):
        P, k, d = ast.literal_eval(l)
        sys.set_int_max_str_digits(4300)
        from oracle import kinds, plans
        bad = [m for ps, m in kinds.judge(k, d) if P in ps]
        for m in bad:
            print('FAILS:', m)
        if not bad:
            print('does not fail any more')
        sys.exit(1 if bad else 0)
    elif l:
        print(l)
