"""Macro calls are replaced as their definitions say."""
from .. import ppgen
from .ppsem import PPProp


class C12(PPProp):
    id = 'C12'
    quick = (40000, 60)
    thorough = (300000, 600)
    chunk = 16
    rule = ('a case is a file of definitions and uses (or a program rewritten with macros); non-trivial: at least 3 calls of macros are replaced, '
            'or the program is rewritten in at least 3 places')
    assumptions = ['the output of -E is compared as a sequence of tokens; its #line marks, white space and comments are ignored',
                   'operators that meet at the edge of a replacement are not generated (recorded finding)']

    def case(self, rnd, i):
        if rnd.random() < 0.25: return self.factored(rnd, ('object', 'function', 'paste', 'block', 'eval', 'function', 'object'))
        return self.modelled(ppgen.Gen(rnd).program(rnd.randint(2, 8)), rnd, lambda st: st.get('call', 0) < 3)


prop = C12()
