import re
import z3
from framework import harness_tasks
from exec import FALSE, TRUE, B, And, Or, simp, ite, VCError
ID = 'P05'
LEVEL = 'proof'
ASSUMPTIONS = ['contract of tuple_rw::alloc_loose(tag, units): a fresh index item with that descriptor, whose payload is `units` fresh units '
               '(assumed here for insert_*; the allocator itself is exercised by the bounded check of P07)',
               'NaN and infinities are excluded: the product is compiled with -ffast-math']


def setup(ex, nm, tier, res):
    ex.touched = FALSE

    def alloc_loose(ex, pc, args, ins):
        e = pc.e
        if 'item' not in ex.marks:
            ex.oblige(pc, FALSE, 'a preplaced field needs no allocation', 'pre')
            return B(0, 64)
        ex.touched = Or(ex.touched, e)
        item = ex.marks['item']
        tag, units = args[1], args[2]
        if tag.size() > 16:
            tag = z3.Extract(15, 0, tag)
        ex.store_bv(pc, simp(item + B(2)), tag, 'alloc_loose: descriptor')
        ex.store_bv(pc, simp(item), z3.If(units == 0, z3.BitVecVal(0, 16), z3.BitVecVal(16, 16)), 'alloc_loose: offset')
        ex.oblige(pc, z3.ULE(units, 16), 'size of a fixed field', 'pre')
        return item

    def touched(ex, pc, args, ins):
        return ex.touched
    def unreachable(ex, pc, args, ins):
        ex.oblige(pc, FALSE, 'a preplaced or absent field has nothing to release', 'pre')
        return B(0, 64)
    ex.contracts[re.compile(r'tuple_rw::(realloc_data|alloc_data|release_)')] = unreachable
    ex.contracts[re.compile(r'tuple_rw::alloc_loose')] = alloc_loose
    ex.contracts['@vc_touched'] = touched


NUM = {'i8': 4, 'u8': 5, 'i16': 6, 'u16': 7, 'i32': 8, 'u32': 9, 'f32': 10, 'i64': 12, 'u64': 13, 'f64': 14}


def tasks(tier):
    cases = [(':' + k, {'genus': v}) for k, v in NUM.items()]
    cases.append((':other', {'genus': lambda v: And(*[v != n for n in NUM.values()])}))
    return harness_tasks('p05.cxx', setup, cases=cases)
