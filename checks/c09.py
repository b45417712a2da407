"""Local search applies only strictly improving moves."""
import moves
import lsearch


def check(k):
    k.rule('the search loop equals the reference loop (a move is performed only below the tolerance, every move is a part of the loop, the loop ends after a round without one); '
           'predicting a move changes nothing; performing one refreshes and stamps both routes, in every aliasing case; the combined swap is applied only for a strict gain')
    n = 0
    if k.tier != 'quick':
        n += moves.check(k, 'shape')
    n += moves.check(k, 'pure')
    k.refs(('LocalSearch::search@Move::delta,Move::perform,SwapStar::run', dict(pure=('Move::delta',))), *lsearch.swap_star('gain', k.tier))
    moves.refresh(k)
    return n
