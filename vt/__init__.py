import importlib


def load_prop(pid):
    return importlib.import_module("vt.props." + pid.lower())
