"""Every move keeps the linked routes consistent."""
import moves


def check(k):
    k.rule('for every aliasing case in which a move applies, the heap shape after it is a set of closed doubly linked routes with the same customers and every cached value as defined by the sequences')
    return moves.check(k, 'shape')
