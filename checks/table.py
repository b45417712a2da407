"""Functions compared with their reference, per property: (rule, [specifications]).
'Type::fn@callee,...' keeps the named callees opaque (they are compared by themselves)."""
from common import *
import lsearch
from rawtable import primitives

GA_OPAQUE = 'Split::run,educate,RuinRecreate::load,RuinRecreate::complete,RuinRecreate::search,RuinRecreate::get_best_solution,setup_elite_education,setup_mutation,Population::add_individual,update_best,update_penalty,GeneticAlgorithm::log,GeneticAlgorithm::reset,create_initial_individual,crossover,reset_penalty,get_parent'
EDUCATE = 'GeneticAlgorithm::educate@LocalSearch::run,RuinRecreate::load,RuinRecreate::complete,RuinRecreate::search,RuinRecreate::get_best_solution,Population::add_individual,update_best'
UPDATE_BEST = 'GeneticAlgorithm::update_best@SearchHistory::add'
UPDATE_PENALTY = 'GeneticAlgorithm::update_penalty@Individual::evaluate'
# the feasibility history never is empty (100 entries from the start, one in and one out)
POPADD = ('Population::add_individual@SubPopulation::add_individual', dict(assume_=GtI(me.feasible_history.len, 0)))
EVAL = ['SolutionEvaluation::evaluate', 'Individual::evaluate', 'Individual::is_feasible', 'Individual::penalized_cost', 'SolutionEvaluation::is_feasible']
_g, _h = arg(2).d.genotype.len, arg(3).d.genotype.len
OX = ('GeneticAlgorithm::crossover_ox@Individual::new',
      dict(assume_=GtI(_g, arg(4)) & GtI(_g, arg(5)) & ~GtI(0, arg(4)) & ~GtI(0, arg(5)) & ~GtI(_h, _g) & ~GtI(_g, _h)))
RR_SEARCH = 'RuinRecreate::search@update_individual,SearchHistory::add,Individual::new_random,Ruin::run,Recreate::run,RuinRecreateSolution::from,RuinRecreateSolution::reevaluate,is_feasible,AcceptanceCriterion::accept,AcceptanceCriterion::update,AcceptanceCriterion::completed'
# a string of at least one and at most all customers of a route around one of them is removed
_sol = arg(2).d
_len = _sol.routes[arg(4)].nodes.len
RUIN = ('AdjacentStringRemoval::ruin_route@Route::remove',
        dict(assume_=GtI(arg(5), 0) & ~GtI(arg(5), _len) & ~GtI(0, _sol.locations[arg(3)].node_index) & GtI(_len, _sol.locations[arg(3)].node_index)))
CLOCK = ['Context::terminate', 'Context::next_iteration']

DEC = {
    'Population::new': 'Population::new',
    'SubPopulation::new': 'SubPopulation::new',
    'GeneticAlgorithm::new': 'GeneticAlgorithm::new@Population::new,Split::new,LocalSearch::new,RuinRecreate::new,Individual::new_random',
    'GeneticAlgorithm::reset': 'GeneticAlgorithm::reset@Population::new',
    'Decomposition::new': 'Decomposition::new@decompose_global,Context::from_mapping,sort_routes,Individual::evaluate',
    'Decomposition::finish': 'Decomposition::finish@sort_routes,Individual::evaluate',
    'Decomposition::run': 'Decomposition::run@GeneticAlgorithm::new,GeneticAlgorithm::add_initial,GeneticAlgorithm::iterate,GeneticAlgorithm::terminated',
    'Decomposition::decompose_global': 'Decomposition::decompose_global',
    'DecomposedGeneticAlgorithm::new': 'DecomposedGeneticAlgorithm::new@GeneticAlgorithm::new,Individual::new_random',
    'DecomposedGeneticAlgorithm::terminated': 'DecomposedGeneticAlgorithm::terminated',
    'DecomposedGeneticAlgorithm::create_global_solution': 'DecomposedGeneticAlgorithm::create_global_solution@Individual::new_random,Split::run,educate,set_acceptance,RuinRecreate::load,RuinRecreate::complete,RuinRecreate::search,RuinRecreate::get_best_solution,best_cost,AcceptanceCriterion::reset,Individual::evaluate',
    'DecomposedGeneticAlgorithm::iterate': 'DecomposedGeneticAlgorithm::iterate@create_global_solution,Decomposition::new,Decomposition::run,Decomposition::finish,update_best,AcceptanceCriterion::reset,RuinRecreate::load,RuinRecreate::complete,RuinRecreate::search,RuinRecreate::get_best_solution',
}
DEC_ALL = list(DEC.values())
SOLVER = ['Solver::new', 'Solver::run@Metaheuristic::iterate,Metaheuristic::terminated']

PANICS = dict(panics=True)
PARTS = ['read_file', 'parse_dimension', 'parse_capacity', 'parse_coords', 'parse_demands', 'parse_numbers', 'parse_lower_row_matrix', 'create_nodes', 'create_vehicle', 'parse_edge_weight_type', 'parse_edge_weight_format']

REFS = {
    'C17': ['every part of an instance is read, rejected or taken over as in the reference parser; abnormal ends (failed expectations, indices out of range, panics) are compared as a ghost result', [
        ('ProblemParser::' + x, PANICS) for x in PARTS] + [('ProblemParser::new', PANICS), ('ProblemParser::parse@' + ','.join(PARTS), PANICS),
        'Context::new@MatrixProvider::new,Context::setup,SearchHistory::new', 'MatrixProvider::new@CorrelationMatrix::new,DistanceMatrixBuilder::build']],
    'C16': ['the merge of defaults, file and command line equals the reference, abnormal ends included, and every routine that reads a setting equals its reference', [
        ('Config::reset@Config::default', PANICS), ('Config::read_yaml_file', PANICS), ('Config::load_yaml_file@Config::default', PANICS), ('Config::update_from_yaml_file', PANICS),
        ('Config::update', PANICS), ('Config::update_from_args', PANICS), ('Args::parse', PANICS)] + CLOCK + [
        'RuinRecreate::setup_elite_education', 'RuinRecreate::setup_mutation', 'RuinRecreate::new', 'AdjacentStringRemoval::new', DEC['Decomposition::run'], DEC['Decomposition::decompose_global'],
        'GeneticAlgorithm::iterate@' + GA_OPAQUE, EDUCATE, UPDATE_PENALTY, 'Population::get_parent@tournament', DEC['SubPopulation::new'],
        'SubPopulation::add_individual@update_diversity,update_fitness,natural_selection,remove_individual', 'SubPopulation::update_fitness@average_broken_pairs_distance',
        'Context::new@MatrixProvider::new,Context::setup,SearchHistory::new', 'Context::setup', 'Context::reset_penalty', 'MatrixProvider::new@CorrelationMatrix::new,DistanceMatrixBuilder::build',
        'Split::run@Split::load,Split::split,split_limited_fleet,sort_routes,Individual::evaluate', 'Split::split@Split::reset', 'Split::split_limited_fleet@Split::reset',
        'Moves::new', 'Moves::neighborhood_moves', 'Moves::depot_moves', 'Moves::empty_route_moves', ('LocalSearch::search@Move::delta,Move::perform,SwapStar::run', dict(pure=('Move::delta',))),
        lsearch.create, 'LocalSearch::update_penalty']],
    'C13': ['every routine that replaces routes or changes the penalty equals its reference, which re-evaluates what the change touches before it is used', [
        UPDATE_PENALTY, 'Split::run@Split::load,Split::split,split_limited_fleet,sort_routes,Individual::evaluate', 'Split::new', 'Split::reset', 'Split::load', EDUCATE,
        'GeneticAlgorithm::iterate@' + GA_OPAQUE, 'GeneticAlgorithm::add_initial@update_best,Population::add_individual',
        'RuinRecreate::load@RuinRecreateSolution::load,RuinRecreateSolution::evaluate', 'RuinRecreateSolution::load', 'RuinRecreateSolution::evaluate', 'RuinRecreateSolution::reevaluate',
        'GreedyBlink::run@sort_unassigned,RuinRecreateSolution::evaluate,delta_distance,Route::add',
        'RuinRecreate::update_individual@sort_routes,Individual::evaluate',
        RR_SEARCH, 'RuinRecreate::complete', DEC['DecomposedGeneticAlgorithm::create_global_solution'], DEC['DecomposedGeneticAlgorithm::iterate'],
        DEC['Decomposition::new'], DEC['Decomposition::run'], DEC['Decomposition::finish'], DEC['GeneticAlgorithm::reset'], DEC['GeneticAlgorithm::new'],
        'Context::reset_penalty', 'Context::setup'] + EVAL + lsearch.RUN],
    'C03': ['an individual replaces the best one exactly under the rule of the reference function', [
        UPDATE_BEST, 'RuinRecreate::update_best@update_individual,SearchHistory::add,Individual::new_random', RR_SEARCH, 'SearchHistory::add', 'SearchHistory::new', 'GeneticAlgorithm::add_initial@update_best,Population::add_individual',
        DEC['DecomposedGeneticAlgorithm::iterate'], DEC['GeneticAlgorithm::reset'], DEC['GeneticAlgorithm::new']] + EVAL],
    'C04': ['the history after an addition equals that of the reference', ['SearchHistory::new', 'SearchHistory::add', 'SearchHistory::last_entry', UPDATE_BEST]],
    'C14': ['every population operation equals the reference operation, for every population state', [
        'SubPopulation::add_individual@update_diversity,update_fitness,natural_selection,remove_individual',
        'SubPopulation::natural_selection@individual_is_clone,remove_individual,update_fitness',
        'SubPopulation::remove_individual@remove_diversity,update_fitness',
        'SubPopulation::update_fitness@average_broken_pairs_distance',
        'SubPopulation::update_diversity@add_diversity,calculate_broken_pairs_distance',
        'SubPopulation::add_diversity', 'SubPopulation::remove_diversity', 'SubPopulation::average_broken_pairs_distance', 'SubPopulation::individual_is_clone',
        'SubPopulation::sample_top', 'SubPopulation::get_best', POPADD,
        'Population::tournament', 'Population::get_parent@tournament', 'Individual::cmp', 'Individual::partial_cmp', 'Individual::eq',
        DEC['Population::new'], DEC['SubPopulation::new'], DEC['GeneticAlgorithm::reset']]],
    'C15': ['the penalty update, the starting penalty and the feasibility history equal the reference', [
        UPDATE_PENALTY, 'Context::reset_penalty', 'Context::vehicle_lower_bound', 'Population::history_fraction', POPADD,
        'Problem::max_demand', 'Problem::total_demand']],
    'C18': ['building, reading and mapping a distance table equal the reference, for every instance', [
        primitives,
        'DistanceMatrixBuilder::build', 'DistanceMatrixBuilder::new', ('DistanceMatrix::get', dict(models={'DistanceMatrix::get': None})),
        ('DistanceMatrix::get_vec', dict(models={'DistanceMatrix::get_vec': None, 'DistanceMatrix::get': None}, assume_=~GtI(arg(2) + arg(3), me.locations.len))),
        'DistanceMatrix::max', 'DistanceMatrix::size', 'DistanceMatrix::from_mapping',
        'MatrixProvider::new@CorrelationMatrix::new,DistanceMatrixBuilder::build']],
    'C20': ['the neighbour table and its readers equal the reference', [
        primitives,
        'CorrelationMatrix::new', 'CorrelationMatrix::get', 'CorrelationMatrix::top_slice', 'CorrelationMatrix::width',
        'MatrixProvider::new@CorrelationMatrix::new,DistanceMatrixBuilder::build', 'MatrixProvider::from_mapping@CorrelationMatrix::new,DistanceMatrix::from_mapping']],
    'C22': ['creating, updating and resetting a schedule equal the reference, for every state and budget', [
        'IterationSchedule::new', 'IterationSchedule::update', 'IterationSchedule::reset', 'IterationSchedule::accept',
        'TimeSchedule::new', 'TimeSchedule::update', 'TimeSchedule::reset', 'TimeSchedule::accept', 'TimeSchedule::completed']],
    'C23': ['the distance, the links it reads and the table it is stored in equal the reference', [
        'Individual::calculate_broken_pairs_distance', 'Individual::successor', 'Individual::predecessor', 'SolutionEvaluation::evaluate',
        'SubPopulation::update_diversity@add_diversity,calculate_broken_pairs_distance', 'SubPopulation::average_broken_pairs_distance']],
    'C26': ['loading, propagating and reading back a split equal the reference, for every tour', [
        primitives,
        'Split::new', 'Split::run@Split::load,Split::split,split_limited_fleet,sort_routes,Individual::evaluate', 'Split::load', 'Split::reset', 'Split::split@Split::reset', 'Split::split_limited_fleet@Split::reset',
        'Split::propagate', 'Split::dominates', 'Split::dominates_right', 'Individual::sort_routes']],
    'C27': ['crossover equals the reference', ['GeneticAlgorithm::crossover@crossover_ox', OX, 'Individual::new', 'GeneticAlgorithm::iterate@' + GA_OPAQUE]],
    'C28': ['every sector operation equals the reference, for every sector and angle', ['CircleSector::new', 'CircleSector::extend', 'CircleSector::is_enclosed', 'CircleSector::overlaps', 'Problem::get_angle']],
    'C30': ['each step of the genetic algorithm equals the reference step', [
        EDUCATE, 'GeneticAlgorithm::iterate@' + GA_OPAQUE, 'GeneticAlgorithm::create_initial_individual@Split::run,educate,Individual::new_random',
        'GeneticAlgorithm::add_initial@update_best,Population::add_individual', 'Individual::new', 'Individual::new_random', 'Population::tournament', 'Population::get_parent@tournament',
        'GeneticAlgorithm::terminated', 'GeneticAlgorithm::crossover@crossover_ox', DEC['GeneticAlgorithm::new'], DEC['GeneticAlgorithm::reset']]],
    'C02': ['the stop condition and the iteration counter equal the reference', CLOCK + SOLVER + ['GeneticAlgorithm::terminated', 'GeneticAlgorithm::iterate@' + GA_OPAQUE,
        DEC['DecomposedGeneticAlgorithm::iterate'], DEC['DecomposedGeneticAlgorithm::terminated'], DEC['DecomposedGeneticAlgorithm::create_global_solution'], DEC['Decomposition::run'],
        DEC['DecomposedGeneticAlgorithm::new'], DEC['GeneticAlgorithm::new'], 'Context::from_mapping@from_mapping']],
    'C19': ['subproblem construction equals the reference', [
        'Problem::from_mapping', 'Context::from_mapping@from_mapping', 'DistanceMatrix::from_mapping', 'MatrixProvider::from_mapping@CorrelationMatrix::new,DistanceMatrix::from_mapping',
        'Context::new@MatrixProvider::new,Context::setup,SearchHistory::new', 'Context::setup',
        DEC['Decomposition::new'], DEC['Decomposition::decompose_global'], DEC['Decomposition::run'], DEC['Decomposition::finish'], 'Individual::sort_routes']],
    'C10': ['every edit of a ruin-and-recreate route equals the reference edit, for every route state', [
        'NodeLocation::new',
        'NodeLocation::empty',
        'NodeLocation::update',
        'NodeLocation::update_from_other',
        'Route::empty',
        'Route::remove',
        'Route::delta_distance',
        'Route::add',
        'Route::update_from_other',
        'RuinRecreateSolution::new',
        'RuinRecreateSolution::from',
        'RuinRecreateSolution::load',
        'RuinRecreateSolution::is_feasible',
        'RuinRecreateSolution::evaluate',
        'RuinRecreateSolution::reevaluate']],
    'C11': ['removal, sorting, insertion and the copies between solutions equal the reference; the removed customers are exactly the ones handed to insertion', [
        'NodeLocation::empty',
        'NodeLocation::update',
        'NodeLocation::update_from_other',
        'Route::remove',
        'Route::add',
        'Route::update_from_other',
        'RuinRecreateSolution::from',
        'RuinRecreateSolution::load',
        'RuinRecreate::load@RuinRecreateSolution::load,RuinRecreateSolution::evaluate',
        'RuinRecreate::update_individual@sort_routes,Individual::evaluate',
        'GreedyBlink::sort_unassigned',
        'GreedyBlink::run@sort_unassigned,RuinRecreateSolution::evaluate,delta_distance,Route::add',
        'AdjacentStringRemoval::new',
        'AdjacentStringRemoval::average_tour_cardinality',
        RUIN,
        'AdjacentStringRemoval::run@ruin_route,average_tour_cardinality']],
    'C12': ['acceptance, reset and reporting equal the reference', [
        'AcceptanceCriterion::accept',
        'AcceptanceCriterion::update',
        'AcceptanceCriterion::completed',
        'AcceptanceCriterion::reset',
        'RuinRecreate::new',
        'RuinRecreate::setup_elite_education',
        'RuinRecreate::setup_mutation',
        'RuinRecreate::set_acceptance',
        'RuinRecreate::load@RuinRecreateSolution::load,RuinRecreateSolution::evaluate',
        'RuinRecreate::complete',
        'RuinRecreate::update_best@update_individual,SearchHistory::add,Individual::new_random',
        RR_SEARCH,
        'RuinRecreate::get_solution@update_individual',
        'RuinRecreate::get_best_solution@update_individual',
        'RuinRecreate::best_cost',
        'RuinRecreate::update_individual@sort_routes,Individual::evaluate',
        'RuinRecreateSolution::new',
        'RuinRecreateSolution::from',
        'RuinRecreateSolution::is_feasible',
        'IterationSchedule::accept',
        'TimeSchedule::accept',
        'TimeSchedule::completed']],
}


def check(k, pid):
    if pid not in REFS:
        return 0
    rule, specs = REFS[pid]
    k.rule(rule)
    k.refs(*specs)
    return len(specs)
