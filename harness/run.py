"""Worker: runs items against the library and writes one event per line.
usage: run.py ITEMS OUT [dry]"""
import json
import resource
import sys

import lib
import ops


def main():
    items, out = sys.argv[1], sys.argv[2]
    dry = len(sys.argv) > 3 and sys.argv[3] == 'dry'
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    L = lib.Lib()
    with open(items) as f, open(out, 'a') as o:
        for line in f:
            it = json.loads(line)
            e = ops.run(L, it, dry)
            e['id'] = it['id']
            o.write(json.dumps(e, separators=(',', ':')) + '\n')
            o.flush()


main()
