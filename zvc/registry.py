class Contract:
    def __init__(self, name, props, fns, fn, **kw):
        self.name, self.props, self.fns, self.fn = name, props.split(), fns, fn
        self.opts = kw
ALL = []
HARNESS = {}   # extra modules: name -> (C file(s), extra defines)
def contract(props, fns, **kw):
    def d(f):
        ALL.append(Contract(f.__module__.split(".")[-1] + "." + f.__name__, props, fns.split(), f, **kw)); return f
    return d
