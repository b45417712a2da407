"""Writes known_findings.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.split(' ', 2) for l in '''C31 72df1d3 a table without cells was requested from the raw allocator with size zero (undefined behaviour)
C20 e03778c local search and ruin read the neighbour table with the configured granularity, beyond its width for small instances
C27 fc52e34 crossover of tours with a single customer never ended (two different cut points do not exist)
C01 f3d08b0 ruin and recreate used a hasher with random keys in deterministic mode
C12 9b1918a loading a start solution stored a copy made before its cost was evaluated
C23 b07222f the distance looked up successors by position instead of customer
C22 0607de5 resetting the time schedule left the start time and temperature of the previous run
C16 39bf24a command-line defaults overrode values of the configuration file
C17 044698b unreadable or truncated instance files were solved as smaller instances
C21 de81680 the order of individuals was not transitive (tolerance comparison used as a total order)
C01 8bdb81b deriving the seed of a hasher overflowed for large seeds
C09 ccbe932 the round counter of local search was not advanced when the combined swap is disabled, so the search never ended
C07 3aabd53 moves that place a customer after the depot used a wrong predecessor
C02 77d6706 the decomposed algorithm ignored the limits between rounds
C26 475e29b the split of a tour with limited vehicles dropped customers when the load limit could not be met
C03 846c77f the genetic algorithm kept an older best solution when ruin and recreate had recorded a better one
C19 fa96aeb the number of routes shrank through decomposition
C13 77a35df the elite individual kept costs of a penalty that had been reset
C28 19502da a sector whose first angle is zero was taken as empty
C17 72e42cb the rows of the demand section were taken by position even where they list other nodes than the coordinate section'''.split('\n')]
OPEN = [{'property': 'C16', 'status': 'open', 'obligation': 'setting %s is read' % x, 'match': 'reads the setting %s:' % x,
         'what': 'the setting %s is accepted by the configuration but read nowhere: giving it has no effect' % x}
        for x in ('bks', 'dynamic_granularity', 'granularity_min', 'rr_final_temp', 'rr_diversify', 'elite_education_final_temp')]
OPEN += [{'property': 'C16', 'status': 'open', 'obligation': 'key %s of config.yml' % x, 'match': 'no setting has the name %s' % x,
          'what': 'the key %s of the configuration file that comes with the program names no setting and is silently ignored (%s)' % (x, y)}
         for x, y in (('ruin_alpha', 'the value 0.01 is fixed in AdjacentStringRemoval::new'), ('blink_probability', 'GreedyBlink never blinks'))]
out = [{'status': 'fixed', 'property': p, 'commit': c, 'what': 'fixed: property=%s %s %s' % (p, c, w)} for p, c, w in FIXED] + OPEN
json.dump(out, open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
