import importlib
import os
from pyvc.spec import Registry


def load():
    reg = Registry()
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('contracts.' + f[:-3]).register(reg)
    return reg
