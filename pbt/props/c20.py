"""Streams: text goes through files, buffers and functions in the same way."""
import os
import subprocess

from .. import build, fuzz
from ..core import Scratch
from .c18 import C18

OPS = {0: 'in_set_buffer', 1: 'in_set_buffer', 2: 'in_set_file', 3: 'in_set_file', 4: 'in_other', 5: 'scan_char', 6: 'scan_char', 7: 'scan_char', 8: 'unscan_char', 9: 'identifier', 10: 'identifier', 11: 'number', 12: 'number',
       13: 'scanf', 14: 'scanf', 15: 'scanf', 16: 'position', 17: 'position', 18: 'unscan', 19: 'in_swap', 20: 'out_set_buffer', 21: 'out_set_file', 22: 'out_other', 23: 'printf', 24: 'printf', 25: 'printf', 26: 'print_char',
       27: 'print_char', 28: 'out_swap', 29: 'extract', 30: 'clear', 31: 'read_back'}
READ = [5, 6, 8, 9, 11, 13, 14, 16, 18]
WRITE = [20, 21, 23, 24, 26, 29, 31, 30]


class C20(C18):
    id = 'C20'
    kinds = ['streams']
    quick = (1200, 45)
    thorough = (20000, 800)
    rule = ('a case is a sequence of up to 80 operations on two streams (sources and destinations of three kinds, reading of characters, identifiers, numbers and by format, going back, printing, exchange), compared with a model of them '
            'after every operation; non-trivial: at least 5 operations read, wrote or changed something')
    assumptions = ['texts contain no NUL, formats of uni_scanf are short and their sets contain no ]', 'an octet that begins a character is followed by the rest of it, unless the text ends',
                   'the end of the text before the first conversion gives 0, not EOF, as reading of characters needs', 'conversions as such are those of the C library']

    def setup(self):
        self.exe = build.driver('uio.cpp', 'uio', ['utils'], fuzz.FLAGS)

    def gen(self, rnd):
        n = rnd.choice([rnd.randint(1, 12), rnd.randint(8, 40), rnd.randint(30, 80)])
        focus = rnd.choice([None, READ, READ, WRITE, READ + WRITE])
        one = rnd.random() < 0.5
        ops = []
        for j in range(n):
            op = rnd.choice(focus) if focus and rnd.random() < 0.85 else rnd.randrange(32)
            if j < 2 and focus is not None: op = rnd.choice([0, 2] if focus is READ or rnd.random() < 0.5 else [20, 21])
            ops.append([op | (0 if one else rnd.randrange(2) << 8), rnd.getrandbits(63), rnd.getrandbits(63)])
        return {'kind': 0, 'ops': ops}

    def run(self, datas):
        here = os.getcwd()
        os.chdir(Scratch.dir())
        try: return super().run(datas)
        finally: os.chdir(here)

    def describe(self, data):
        return {'operations.txt': ''.join('%s stream %d: %d %d\n' % (OPS[(o & 255) % 32], o >> 8 & 1, a, b) for o, a, b in data['ops'])}


prop = C20()
