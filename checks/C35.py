"""The programs with the fine climatology and for tracks only: from input files to output files"""
from checks import C34
from mc import program as pg
from mc.engine import Sub

PROPERTY = 'C35'
LEVEL = 'model_checking'
RULE = 'the exploration of C34 on the program with the fine climatology and on the one for tracks only, judged by the part of the reference that belongs to each'
BOUNDS = {'quick': 'all sets of reports and parameters of C34, and a fixed part of its lines, orders, periods, days and places', 'thorough': 'all cases of C34'}
ASSUMPTIONS = C34.ASSUMPTIONS
PROGS = ['hires', 'track']


def sub(name, keep=lambda prog, case: True):
    gen, run = getattr(C34, 'gen_' + name), getattr(C34, 'run_' + name)

    def g(tier):
        for prog in PROGS:
            for i, case in enumerate(gen(tier)):
                if tier == 'thorough' or keep(prog, i):
                    yield [prog, case]

    def r(case, R):
        pg.HIRES[0] = case[0] == 'hires'
        run(case[1], R, case[0])
    return Sub(name, g, r)


SUBS = [sub('lines', lambda p, i: i % 5 == 0), sub('excluded', lambda p, i: i % 3 == 0), sub('orders', lambda p, i: i % 4 == 0), sub('months', lambda p, i: i % 2 == 0),
        sub('tracking', lambda p, i: i % 4 == 0 or p == 'track'), sub('drifters', lambda p, i: i % 2 == 0), sub('borders'), sub('again'), sub('seasons'), sub('params'), sub('islands')]
