"""Local search works on the given solution and hands it back faithfully."""
import lsearch


def check(k):
    k.rule('loading, over whatever lists an earlier run left behind, gives exactly the lists of the given solution with empty state; the run resets, sets the penalty, loads, searches and writes back in that order; '
           'writing back gives exactly the sequences of the lists and re-evaluates')
    k.refs(lsearch.load, lsearch.unload, lsearch.create, *lsearch.RUN)
    return 5
