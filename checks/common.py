"""shared pieces of the harness generators"""
W = (8, 16, 32, 64)
KINDS = ("", "_linear")


def T(kind, n):
    return "takum%s%d" % (kind, n)


def full(n):
    return (n, -(1 << n - 1), (1 << n - 1) - 1)


def NARV(n):
    return -(1 << n - 1)


HEAD = '#include "spec.h"\n'
