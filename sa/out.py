"""Outcome trees of statement execution."""


class Leaf:
    __slots__ = ('kind', 'val', 'st')

    def __init__(self, kind, val, st):
        self.kind = kind
        self.val = val
        self.st = st


class Br:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class GiveUp(Exception):
    pass


def Leaf_fall(st):
    return Leaf('fall', None, st)


Br_ = Br
