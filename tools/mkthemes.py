"""Records the bundled code themes' tables in vlib/themes.json: theme -> [[selector, settings], ...]."""
import importlib
import json
import os
import pkgutil
import sys

HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import real  # noqa: E402

real.load()
import gopher_render.code_themes as ct  # noqa: E402
out = {}
for m in pkgutil.iter_modules(ct.__path__):
    mod = importlib.import_module('gopher_render.code_themes.' + m.name)
    out[m.name] = [[s, v[1]] for s, v in mod.renderers.items()]
with open(os.path.join(HERE, 'vlib', 'themes.json'), 'w') as f:
    json.dump(out, f, indent=0)
    f.write('\n')
