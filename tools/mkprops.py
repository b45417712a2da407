"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []


def p(i, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (i, len(title))
    P.append({'id': i, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          **({'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]} if state else {}),
                          'observe_at': list(observe)}})


G = 'src/solver/genetic/'
I = 'src/solver/improvement/'
M = I + 'moves/'
R = I + 'ruin_recreate/'

p('C01', 'Deterministic mode: the seed decides every random choice',
  'With deterministic mode on, every random choice and every hash order a search uses is derived from the configured seed, in the whole problem and in every subproblem; no other source of randomness, and no wall-clock reading except to stop, to log, to stamp records and to drive the time-based cooling schedule, reaches the search.',
  ['histories', 'configurations'], 'every run of every solver configuration with the same seed, input and iteration limit',
  'The only search the tests run is one fixed instance, once; equality of two runs over all seeds and all hasher keys is not something they sample.',
  ['src/utils/random.rs', 'src/solver/context.rs', R + 'mod.rs', R + 'node.rs', G + 'split.rs', G + 'population.rs'],
  [('single random generator in the context', 'src/utils/random.rs Random'), ('choice of seeded generator', 'src/solver/context.rs Context::new'), ('hashers keyed by the generator', 'src/utils/random.rs Random::random_state')],
  ['result of two runs with equal seeds'])
p('C02', 'A run stops once its time or iteration limit is reached',
  'The stop condition is true exactly when the elapsed time has reached the configured time limit or the number of iterations counted since the start has reached the configured maximum; every open-ended search phase tests it before each further round, and each generation of the genetic algorithm and each round of the decomposition counts as exactly one iteration.',
  ['histories', 'configurations'], 'every run: all limits, phases (elite education, initial population, generations, decomposition, ruin and recreate) and clock readings',
  'The one benchmark run stops by its iteration limit only; limits reached inside other phases and inside subproblems are never exercised.',
  ['src/solver/context.rs', G + 'genetic.rs', G + 'decomposition.rs', R + 'mod.rs'],
  [('stop condition', 'src/solver/context.rs Context::terminate'), ('phase loops', 'src/solver/genetic/genetic.rs GeneticAlgorithm::iterate, src/solver/genetic/decomposition.rs DecomposedGeneticAlgorithm::iterate, src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::search')],
  ['wall time and iteration count at the end of a run'])
p('C03', 'Only feasible, strictly better solutions become the best solution',
  'A solution replaces the best solution, or is added to the run history, only if it is feasible and strictly cheaper (beyond the comparison tolerance) than the best solution it replaces and than the best recorded cost; a feasible strictly better candidate that is offered is never rejected.',
  ['histories'], 'every sequence of candidate solutions offered to the genetic algorithm, the ruin-and-recreate search and the decomposed algorithm',
  'Tests never inspect the sequence of improvements; infeasible or worse candidates arise only for some penalties and instances.',
  [G + 'genetic.rs', G + 'decomposition.rs', R + 'mod.rs'],
  [('guards on best updates', 'src/solver/genetic/genetic.rs GeneticAlgorithm::update_best, src/solver/improvement/ruin_recreate/mod.rs, src/solver/genetic/decomposition.rs')],
  ['final solution, log of improvements'])
p('C04', 'The run history records each new best solution faithfully',
  'Adding a solution to the run history appends one entry holding exactly that solution, its penalised cost and the elapsed time, keeps all earlier entries in order with their cost and time (only the last entry keeps its routes), and makes the recorded best cost and best solution those of the new entry.',
  ['histories'], 'every sequence of additions',
  'No test reads the history.',
  ['src/solver/history.rs'], [('append', 'src/solver/history.rs SearchHistory::add')], ['history entries', 'final solution printed'])
p('C05', 'The solution file lists every non-empty route and the cost of the best solution',
  'The text written for a solution has one line per non-empty route, numbered 1, 2, 3 ... without gaps, listing that route\'s customers in visiting order, followed by one cost line with that solution\'s cost rounded to the nearest whole number; the program writes the last recorded best solution to the configured path and reports a failure to write.',
  ['inputs', 'configurations'], 'every solution and every output path',
  'No test looks at the output.',
  ['src/solver/history.rs', 'src/utils/serializer.rs', 'src/main.rs'],
  [('text form', 'src/solver/history.rs Display'), ('file writer', 'src/utils/serializer.rs write_solution_file')], ['solution file'])
p('C06', 'Solution cost and feasibility are the CVRP definition',
  'The cost of a solution is, summed over its routes, the distance of the closed tour from the depot through the route\'s customers in order and back plus the capacity penalty times the positive part of load minus capacity; a solution is feasible exactly when no route\'s load exceeds the capacity (beyond the comparison tolerance), and predecessor and successor of every visited customer are its neighbours on its route.',
  ['inputs'], 'every instance, every list of routes (empty routes included) and every penalty',
  'No test evaluates a solution.',
  ['src/solver/evaluate.rs', G + 'individual.rs'], [('evaluation', 'src/solver/evaluate.rs SolutionEvaluation::evaluate'), ('penalty term', 'route_cost')], ['cost and feasibility of any solution'])
p('C07', 'A move\'s predicted cost change equals the change it makes',
  'For each of the nine local search moves (three relocations, three swaps, two inter-route exchanges of tails and the intra-route segment reversal) and all positions at which it may be applied, the cost change it predicts equals the cost of the routes after the move minus their cost before it, or is reported as not improving or infinite where the move is not applicable.',
  ['inputs'], 'every pair of positions (same or different route, adjacent or apart, next to the depot, empty target route) in every solution, with every penalty',
  'No test applies a move; errors in one aliasing case only bias the search silently.',
  [M + 'relocation.rs', M + 'swap.rs', M + 'two_opt.rs'], [('delta and perform of each move', M + '*.rs')], ['cost before and after a move'])
p('C08', 'Moves keep every route a consistent list holding the same customers',
  'Applying any local search move to any admissible positions leaves every route a closed doubly linked list in which each link points back, containing together exactly the customers it contained before, and afterwards the cached load, distance, positions and cumulative values of both routes are those of the new customer sequences.',
  ['inputs'], 'every move, pair of positions and route contents',
  'A lost or duplicated customer or a stale cache depends on rare aliasing between the two positions; no test applies a move.',
  [I + 'linked_list.rs', I + 'local_search.rs', M + 'relocation.rs', M + 'swap.rs', M + 'two_opt.rs', M + 'swap_star.rs'],
  [('pointer updates', 'moves perform'), ('cache refresh', 'local_search.rs LocalSearch::update_route')], ['routes after a local search'])
p('C09', 'Local search applies only strictly improving moves',
  'A local search move is carried out only when its predicted change of penalised cost is strictly negative (beyond the comparison tolerance), and after each applied move both routes involved are refreshed and marked as changed before any further move is evaluated; the search ends only after a full round without an applied move.',
  ['histories'], 'every sequence of moves the local search can make', 'The search path depends on the instance; no test observes it.',
  [I + 'local_search.rs', M + 'relocation.rs', M + 'swap.rs', M + 'two_opt.rs', M + 'swap_star.rs'], [('improvement guards', 'src/solver/improvement/local_search.rs LocalSearch::run and the run method of each move')], ['cost after local search'])
p('C10', 'Ruin-and-recreate route edits keep distance, load and cost exact',
  'Inserting a customer into or removing one from a route during ruin and recreate changes exactly that position, and the stored distance and load of the route, and the insertion cost quoted beforehand, are exactly those of the resulting sequence; re-evaluating the solution yields the defined cost and feasibility over all its routes.',
  ['inputs'], 'every route, position and customer', 'No test exercises ruin and recreate in isolation.',
  [R + 'node.rs', R + 'mod.rs'], [('incremental updates', R + 'node.rs Route'), ('re-evaluation', R + 'mod.rs RuinRecreateSolution')], ['cost of solutions produced by ruin and recreate'])
p('C11', 'Ruin and recreate never loses or duplicates a customer',
  'Every customer that a ruin step takes out of a route is put in the pool of removed customers exactly once, no other customer is, and a recreate step inserts every pooled customer into exactly one route and empties the pool.',
  ['inputs', 'histories'], 'every ruin and recreate round on every solution and random choice', 'Depends on random choices; no test counts customers.',
  [R + 'ruin.rs', R + 'recreate.rs', R + 'mod.rs'], [('pool of removed customers', R)], ['customers of the produced solution'])
p('C12', 'Ruin and recreate accepts, restores and reports solutions by its stated rule',
  'A round starts from the current solution; its result becomes the current solution exactly when it is cheaper than the current cost minus temperature times the logarithm of a uniform random number, otherwise the next round starts again from the unchanged current solution; the best solution returned is the one of lowest penalised cost met, the starting solution included, and only feasible ones are recorded in the run history.',
  ['histories'], 'every sequence of rounds, temperatures and random draws', 'Not observable by the tests.',
  [R + 'mod.rs'], [('acceptance', R + 'mod.rs RuinRecreate::search, update_best')], ['solution returned by ruin and recreate'])
p('C13', 'Stored costs are refreshed whenever routes or the penalty change',
  'Whenever the routes of a stored solution are replaced its cost and feasibility are re-evaluated before they are used, and whenever the capacity penalty changes the stored infeasible solutions are re-evaluated with the new penalty and put back in cost order, and search components use the new penalty from then on.',
  ['histories'], 'every sequence of educations, splits, ruin and recreate rounds, decompositions and penalty updates', 'A stale cost shows only after particular sequences of steps.',
  [G + 'individual.rs', G + 'genetic.rs', G + 'split.rs', I + 'local_search.rs', R + 'mod.rs', G + 'decomposition.rs'], [('re-evaluation', 'src/solver/genetic/genetic.rs GeneticAlgorithm::update_penalty; every caller of a routine that replaces routes')], ['stored cost against recomputed cost'])
p('C14', 'The population keeps its sizes, order, diversity links and survivors right',
  'An added individual goes to the feasible or the infeasible group according to its feasibility, each group stays sorted by cost, every pair of members keeps a symmetric distance entry that disappears when either member leaves, and when a group exceeds its size limit it is cut back to its minimum size by removing first clones and then the least fit members, never the cheapest one.',
  ['histories'], 'every sequence of insertions, removals and survivor selections', 'No test touches the population.',
  [G + 'population.rs'], [('bookkeeping', G + 'population.rs SubPopulation, Population')], ['population contents'])
p('C15', 'The capacity penalty is steered towards the target feasible share within bounds',
  'At each penalty update the share of recent locally improved individuals that were feasible is compared with the target: below the lower tolerance the penalty is multiplied by the increase factor, above the upper tolerance by the decrease factor, otherwise unchanged, and it always stays within its fixed bounds; the recent history has a fixed length, oldest first out, and the starting penalty is derived from the instance within its own bounds.',
  ['histories', 'inputs'], 'every history of feasibility outcomes and every starting penalty', 'No test drives the update.',
  [G + 'genetic.rs', G + 'population.rs', 'src/solver/context.rs'], [('update', 'src/solver/genetic/genetic.rs GeneticAlgorithm::update_penalty'), ('start value', 'src/solver/context.rs Context::reset_penalty')], ['penalty over time'])
p('C16', 'Every configuration value a user gives is honoured',
  'Each command-line option and each key of a configuration file sets exactly the setting it names, command-line values override the file and the file overrides the built-in defaults, an option that is not given changes nothing, an invalid value is rejected, and each setting is read by the part of the solver it configures.',
  ['configurations'], 'every combination of options and configuration file keys', 'No test parses a configuration.',
  ['src/config.rs', 'src/cli.rs', 'src/main.rs'], [('merge', 'src/config.rs Config::update, update_from_args')], ['effective configuration'])
p('C17', 'Instances are parsed faithfully and malformed ones are rejected',
  'Every customer of a well-formed instance file gets exactly the coordinates and demand the file lists for it, with the depot first and the file\'s dimension, capacity, rounding and explicit distances taken over; a file that cannot be read, or that lacks or truncates a required part, is reported as an error and never solved as a smaller instance.',
  ['inputs', 'fault_sequences'], 'every instance file and every read error', 'Tests read one or two well-formed files.',
  ['src/utils/parser.rs', 'src/models/problem.rs'], [('parser', 'src/utils/parser.rs')], ['parsed problem'])
p('C18', 'Distances are symmetric, rounded alike, and independent of caching',
  'The distance between two nodes is the Euclidean distance of their coordinates (rounded to the nearest integer when rounding is on) or the given explicit distance, is symmetric and zero from a node to itself, and is the same value whether or not it was precomputed.',
  ['inputs', 'configurations'], 'every instance size on both sides of the precomputation limit, every pair of nodes, rounding on or off', 'Benchmark instances stay below the precomputation limit.',
  ['src/models/matrix.rs'], [('distance provider', 'src/models/matrix.rs DistanceMatrix, DistanceMatrixBuilder')], ['any distance'])
p('C19', 'Subproblems are faithful and their solutions are mapped back faithfully',
  'A subproblem contains the depot and exactly the customers of the routes it was made from, each with its own coordinates, demand, distances and neighbours, the same vehicle and settings and the same clock, and its best solution is translated back customer by customer; the decomposed solution consists of every subproblem\'s routes, each customer once.',
  ['inputs', 'histories'], 'every decomposition of every solution', 'The test run never decomposes.',
  [G + 'decomposition.rs', 'src/solver/context.rs', 'src/models/matrix.rs', 'src/models/problem.rs'], [('index mapping', 'decomposition.rs, Context::from_mapping, DistanceMatrix::from_mapping')], ['solution of a decomposed run'])
p('C20', 'Nearest-neighbour lists hold each customer\'s closest other customers',
  'For every node the list of neighbours holds customers only, never the node itself nor the depot, without repetition, ordered by increasing distance and nearest first, and its length is the smaller of the fixed maximum and the number of other customers; every reader stays within that length.',
  ['inputs'], 'every instance and granularity setting', 'Out-of-range reads appear only for small instances or large settings.',
  ['src/models/matrix.rs', I + 'local_search.rs', R + 'ruin.rs'], [('construction', 'src/models/matrix.rs CorrelationMatrix')], ['neighbours considered by the search'])
p('C21', 'Tolerance comparisons and orders are mutually consistent',
  'For all finite numbers never two of less, equal and greater hold, and exactly one does unless the difference is exactly the common tolerance, the non-strict comparisons are the union of the corresponding strict one and equality, and the order used to sort and rank solutions is a total order on their exact cost that agrees with equality.',
  ['inputs'], 'every pair and triple of numbers', 'The tests sample a handful of constants.',
  ['src/utils/comparison.rs', G + 'individual.rs', G + 'population.rs'], [('comparison traits', 'src/utils/comparison.rs FloatCompare'), ('order of individuals', 'individual.rs Ord')], ['comparison results'])
p('C22', 'Cooling schedules start at the start value and never rise',
  'Both cooling schedules give the configured starting temperature at the start and afterwards a value that depends only on the consumed fraction of the budget, falling from the start value to zero (or the final value) when the whole budget is consumed, and resetting a schedule restores its initial state.',
  ['histories', 'configurations'], 'every budget, progress and number of resets', 'One schedule has one sampled test; the other\'s test is flaky.',
  [R + 'schedule.rs'], [('schedules', R + 'schedule.rs')], ['temperature'])
p('C23', 'Solution distance counts changed neighbour links, zero for equal solutions',
  'The diversity distance of a solution from another is the number of customers whose following neighbour is not next to them in the other solution plus the number whose route starts at them although they start or end no route of the other, divided by the number of customers; so it is zero for identical solutions and for solutions that differ only in the direction or order of their routes, and a new member of a population gets one distance to each other member, entered for both of them.',
  ['inputs'], 'every pair of solutions', 'No test computes it.',
  [G + 'individual.rs'], [('broken pairs distance', 'src/solver/genetic/individual.rs Individual::calculate_broken_pairs_distance')], ['diversity values'])
p('C24', 'Local search works on the given solution and hands it back faithfully',
  'A local search run first loads the given solution\'s routes in order into its lists, with the current problem data and penalty, discards all state of earlier runs, and at the end writes back exactly the customer sequences of its lists and re-evaluates the solution.',
  ['histories'], 'every solution and every sequence of runs, also of subproblems of different size', 'Stale state from earlier runs never shows in a single run.',
  [I + 'local_search.rs'], [('load and store', 'src/solver/improvement/local_search.rs LocalSearch::run, load_individual, update_individual')], ['solution before and after local search'])
p('C25', 'The combined swap move prices and applies what it promises',
  'The combined swap move of two routes (exchange of two customers, each reinserted at its best place, or the relocation of one) predicts the cost change as removal gains plus insertion costs plus the change of both load penalties, with the three cheapest insertion places kept in order and a place invalidated by the removal never used, and it applies exactly the best combination it found.',
  ['inputs'], 'every pair of routes', 'No test exercises it.',
  [M + 'swap_star.rs', I + 'preprocess.rs', I + 'local_search.rs'], [('combined swap', M + 'swap_star.rs SwapStar'), ('cheapest insertions', I + 'preprocess.rs')], ['cost after the move'])
p('C26', 'Splitting a giant tour keeps every customer once, in order',
  'Splitting a giant tour yields routes that are consecutive segments of the tour, in order and together exactly the whole tour; the cost attached to a segment is its tour distance plus the penalty times its excess load, and if the limited number of vehicles cannot be met within the limit on the load of a segment, that limit is dropped and all customers are still delivered.',
  ['inputs'], 'every giant tour, fleet size and penalty', 'The tests never split a tour directly.',
  [G + 'split.rs'], [('segment costs and reconstruction', G + 'split.rs Split')], ['routes after split'])
p('C27', 'Crossover passes each customer of the parents to the child exactly once',
  'The child\'s giant tour copies the chosen segment of the first parent to the same positions and fills the remaining positions, from after the segment and wrapping around, with the remaining customers in the order of the second parent; the child\'s routes come only from splitting that tour.',
  ['inputs'], 'every pair of parents and cut points', 'Depends on random cut points; nothing asserts it.',
  [G + 'genetic.rs'], [('ordered crossover', 'src/solver/genetic/genetic.rs GeneticAlgorithm::crossover')], ['child tours'])
p('C28', 'Route sectors cover every customer of their route',
  'The angular sector kept for a route is the smallest extension of the previous sector that contains the new customer\'s angle, containment is tested modulo the full circle, and two sectors are reported as overlapping exactly when one contains the start of the other; an empty sector becomes just the first angle it is given.',
  ['inputs'], 'every angle and sector, including sectors that wrap around', 'Wrap-around cases depend on coordinates; no test covers the sector arithmetic.',
  ['src/models/circle_sector.rs', I + 'local_search.rs'], [('sector arithmetic', 'src/models/circle_sector.rs')], ['pairs of routes compared by the combined swap'])
p('C29', 'Input and output failures are reported, never ignored',
  'No failure of reading the instance or configuration, or of writing the result, is discarded: every such failure reaches the caller or ends the program with an error.',
  ['fault_sequences'], 'every input or output operation failing', 'Tests inject no faults.',
  ['src/utils/parser.rs', 'src/utils/serializer.rs', 'src/config.rs', 'src/main.rs'], [('error propagation', 'src/main.rs main and the functions it calls')], ['exit status and messages'])
p('C30', 'The genetic algorithm educates, repairs and inserts children in the stated way',
  'Every new individual is improved by local search at the current penalty before it is added to the population; if it is still infeasible it is, with the configured probability, improved again at a tenfold penalty and only a then feasible result is added as well, leaving the first one unchanged in the population; parents are drawn by tournament from both groups.',
  ['histories'], 'every generation', 'Depends on random draws; not observed by tests.',
  [G + 'genetic.rs', G + 'population.rs'], [('education', 'src/solver/genetic/genetic.rs GeneticAlgorithm::educate')], ['population after each generation'])
p('C31', 'Memory accesses stay inside the allocated tables',
  'Every unchecked table access uses indices below the table\'s allocated dimensions, and no table of size zero is allocated through the raw allocator.',
  ['inputs'], 'every instance and setting', 'Out-of-bounds reads need unusual sizes and do not fail visibly.',
  ['src/models/matrix.rs'], [('raw tables', 'src/models/matrix.rs Matrix')], ['memory safety'])
p('C90', 'The linear split is optimal',
  'The routes produced by splitting a giant tour have the least penalised cost among all ways to cut the tour.',
  ['inputs'], 'every giant tour', 'Optimality over all cuts is never compared.',
  [G + 'split.rs'], [('dominance test', G + 'split.rs')], ['cost after split'])
p('C91', 'Solution quality',
  'On benchmark instances the solver reaches solutions within a small gap of the best known ones within its time limit.',
  ['inputs', 'configurations'], 'benchmark sets', 'Tests run one instance for few iterations.',
  [G + 'genetic.rs'], [('search', '')], ['final cost'])
p('C92', 'Incremental costs do not drift from exact costs by rounding',
  'The accumulated floating-point error of incrementally updated distances and loads stays below the comparison tolerance during any run.',
  ['histories'], 'every run length', 'Needs long runs and recomputation.',
  [R + 'node.rs', I + 'local_search.rs'], [('incremental sums', '')], ['cost difference'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        x['statement'] = ' '.join(x['statement'].split())
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
