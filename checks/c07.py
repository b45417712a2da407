"""Predicted and actual cost change of every move."""
import moves


def check(k):
    k.rule('for every aliasing case of the two positions the predicted change is, as a polynomial over distances, demands, capacity and penalty, the cost of the linked routes after the move minus the cost before')
    return moves.check(k, 'delta')
