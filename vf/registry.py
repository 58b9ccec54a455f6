"""All contracts, by property."""
import importlib

MODULES = ['c_prim', 'c_unit', 'c_io', 'c_shm', 'c_conf', 'c_area', 'c_thread', 'c_list', 'c_rec', 'c_named']


def load():
    out = []
    for m in MODULES:
        out.extend(importlib.import_module('.' + m, __package__).contracts())
    return out


def for_property(p):
    return [c for c in load() if p in c.props]
