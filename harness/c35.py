from harness.convt import *

ASSUMPTIONS = TEXTS


def cases(tier):
    return standard('json', tier)
