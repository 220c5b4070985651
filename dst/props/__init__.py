import importlib


def load(pid):
    return importlib.import_module("dst.props.%s" % pid.lower()).PROP
