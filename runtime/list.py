"""List the lemma instances of some specification modules (used when the
engine cannot load the code)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE)]
sys.dont_write_bytecode = True
import standins  # noqa: E402
import vc  # noqa: E402

standins.install()
for s in json.loads(sys.argv[1]):
    importlib.import_module('specs.' + s)
out = []
for lem in vc.LEMMAS:
    for i, p in enumerate(vc.lemma_params(lem)):
        out.append([lem.name, i, '%s[%s]' % (lem.name, ','.join(
            getattr(x, '__qualname__', None) or str(x) for x in p))])
print(json.dumps(out))
