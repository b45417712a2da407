"""The text of a solution, the file it goes to, and the program around it."""
from common import *
import os
import facts
from program import Program

MAIN = 'main@Config::load_yaml_file,Args::parse,ProblemParser::parse,Context::new,GeneticAlgorithm::new,DecomposedGeneticAlgorithm::new,Solver::run'


def whole(k):
    """the library and the program linked together"""
    d = facts.facts()
    k._prog = Program([os.path.join(d, 'hybridcvrp-lib.json'), os.path.join(d, 'hybridcvrp-bin.json')])


def check(k):
    k.rule('the text pushed to the formatter, the contents of every file opened, and the conditions under which the program ends abnormally equal those of the reference functions; '
           'a failing write or open is one of those conditions')
    whole(k)
    k.refs(('HistoricSolution::fmt', dict(trait='Display', panics=True)), ('write_solution_file', dict(panics=True)), (MAIN, dict(panics=True)),
           'SearchHistory::new', 'SearchHistory::add', ('SearchHistory::last_entry', dict(panics=True)), 'Solver::new', 'Solver::run@Metaheuristic::iterate,Metaheuristic::terminated')
