"""A copy of geocat.comp as a new interpreter would load it (no earlier calls)."""
import importlib.util
import os
import sys

from . import patch


def load(role):
    """the package, executed again from its source under a name of its own;
    prepared for symbolic values exactly as the original is"""
    import geocat.comp as gc

    name = 'geocat.comp_' + role  # a prefix of geocat.comp: see patch.geocat_modules
    for k in [k for k in sys.modules if k == name or k.startswith(name + '.')]:
        del sys.modules[k]
    root = os.path.dirname(gc.__file__)
    spec = importlib.util.spec_from_file_location(name, gc.__file__, submodule_search_locations=[root])
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    if patch._active:
        with patch.unpatched_numpy():
            spec.loader.exec_module(m)
        keep = len(patch._log)
        for k, q in list(sys.modules.items()):
            if k == name or k.startswith(name + '.'):
                patch.patch_module(q)
        patch._patch_sph(sys.modules.get(name + '.spherical'))
        del patch._log[keep:]  # the copy is thrown away, not restored
    else:
        spec.loader.exec_module(m)
    return m
