"""All proof units by name."""
from . import ints, seqs, dispatch, impl, conv, fp, parse, bigdec, hexa, schub, args

ALL = {}
for _m in (ints, seqs, dispatch, impl, conv, fp, parse, bigdec, hexa, schub, args):
    ALL.update(_m.UNITS)
