"""P27: the AESI_UNSAFE build gives the results of the default build for arguments inside the documented ranges"""
from .common import *
from .p24 import select

ID = "P27"
MORE = {"p07": 60, "p12": 20, "p13": 8, "p14": 6, "p15": 6, "p16": 4}


def keep(m, c):
    # only the index arguments of the bit, byte and block accessors have a range that the unchecked build relies on
    return m != "p07" or "out of range" not in c.name


def main(only=None):
    groups = []
    for sfx, ops, cases, hk in select(MORE, 2, lambda c: None, instances=1, keep=keep, nbuild=2):
        fl = list(hk.get("flags", ()))
        ref = Harness(ID + "_ref_" + sfx, ops, **hk)
        for c in cases:
            c.ref = ref
        groups.append((sfx, ops, cases, dict(hk, flags=fl + ["-DAESI_UNSAFE"])))
    return drive(ID, None, None, only, groups=groups, bounds="the narrowest instance of every operation of the other checks (accessors: every index below the width), a few of the partitions each of them uses; all values within a partition",
                 assumptions=["an index of getBit, setBit, getByte, setByte, getBlock and setBlock is in range when it is below the number of bits, bytes and blocks"])
