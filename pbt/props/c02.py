"""Programs compiled for LLVM do what the language says."""
from .. import gen, oracle
from ..lang import is_struct
from .sem import Semantics

ON = ('const,global_bool,typedef,structs,nested,arrays,ptr,strings,dowhile,funcs,recursion,floats,unicode,bools,comma,cond,proto,struct_ret,struct_param,'
      'compound,incdec,assign_expr,float_cond,mathfn,dynbound,logic_value,int_truth,char_arith,sub_arr,mixed,shift,printf,loop_decl,'
      'decls,empty_bound,arr_init,float_literal,assert_,char_arr,arr_param,global_struct,global_arr,abs,int_cast_float,addr_elem,struct_ptr,'
      'for_partial,unary_not,null_cmp,rvalue_member,exit,relnum,bitnot,rem,enum,enum_cmp,struct_assign,char_small,char_arg').split(',')


class C02(Semantics):
    id = 'C02'
    backend = oracle.LL
    flags = {k: (k in ON) for k, v in gen.Feat.DEFAULT.items() if isinstance(v, bool)}
    flags['dims'] = 3
    flags['rvalue_member'] = 'call'
    swarm = [k for k in ON if k != 'printf']
    quick = (24000, 60)
    thorough = (200000, 800)
    chunk = 8
    assumptions = ['IR is executed by LLVM 14 (JIT, no optimisation)',
                   'only the language subset the LLVM back end implements is generated; unsupported constructs are known findings']

    def exclude(self, p):
        for n in gen.nodes(p):
            if n.k == 'decl' and is_struct(n.v[0]) and n.c and n.c[0].k not in ('call', 'init'): return True
        return False


prop = C02()
