from harness.convt import *

ASSUMPTIONS = TEXTS


def cases(tier):
    return standard('xml', tier)
