"""The combined swap move prices and applies what it promises."""
import lsearch


def check(k):
    k.rule('the price of every exchange and relocation, the choice among them, the three cheapest places of every customer in every route, and the lists after the move equal those of the definition, '
           'in list shapes of bounded size with symbolic data, path conditions decided by exact linear arithmetic')
    k.refs(lsearch.preprocess, lsearch.insert, *lsearch.THREE, *lsearch.swap_star('price', k.tier))
    return 10
