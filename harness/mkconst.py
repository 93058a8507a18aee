"""Records the constants of the current tree, so that later ones can be recognised as new."""
import json
import pool
i, s, b = pool.harvest()
json.dump({'ints': sorted(i), 'strs': sorted(s), 'bytes': sorted(list(x) for x in b)}, open(pool.BASE, 'w'))
