"""Tables over raw memory: allocation, offsets, and the indices handed to them."""
from common import *
import lsearch
from rawtable import primitives


def check(k):
    k.rule('the offset of every raw access is row * cols + col, the memory allocated and released is rows * cols cells, and neither happens for an empty table')
    k.rule('in every function that reads or writes tables the condition under which an access leaves its table equals that of the reference function, and the dimensions given to new tables equal the reference\'s')
    primitives(k)
    T = dict(tables=True)
    only = lambda **kw: dict(tables='only', **kw)
    k.refs(('Matrix::init', dict(tables=True, models={'Matrix::init': None})), ('Matrix::from_mapping', T), ('Matrix::clone', dict(tables=True, models={'Matrix::clone': None})),
           ('DistanceMatrixBuilder::build', T),
           ('DistanceMatrix::get', dict(tables=True, models={'DistanceMatrix::get': None})), ('DistanceMatrix::from_mapping', T), ('CorrelationMatrix::new', T),
           ('CorrelationMatrix::get', T), ('CorrelationMatrix::top_slice', T), ('CorrelationMatrix::top_slice_mut', T), 'CorrelationMatrix::width',
           ('Split::new', T), ('Split::reset', T), ('Split::split@Split::reset', T), ('Split::split_limited_fleet@Split::reset', T), ('Split::propagate', T),
           ('Split::dominates', T), ('Split::dominates_right', T), ('Split::load', T), lsearch.create)
