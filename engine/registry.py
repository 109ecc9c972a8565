"""Registry of contracts.  A contract is a function of one context argument; the same text is
executed symbolically (every obligation proved for all inputs) and on the real torch (counterexample
replay and cross-check of the trusted torch semantics)."""

CONTRACTS = []


class Contract:
    def __init__(self, f, props, funcs, kind, trials, cost, note, paths, frame=True, split=None):
        self.frame = frame
        self.split = dict(split or {})
        self.f, self.props, self.funcs, self.kind = f, props, funcs, kind
        self.trials, self.cost, self.note, self.paths = trials, cost, note, paths
        self.name = f.__module__.split(".")[-1] + "." + f.__name__


def contract(props, funcs=(), kind="proof", trials=40, cost=1, note="", paths=400, frame=True, split=None):
    """split: {choice name: number of options}: explored as separate parallel tasks.
    kind: 'proof' (symbolic, unbounded, with a concrete cross-check), 'bounded' (concrete only) or
    'exhaustive' (concrete only, over a complete finite domain)"""
    if isinstance(props, str):
        props = props.split()
    if isinstance(funcs, str):
        funcs = funcs.split()

    def deco(f):
        CONTRACTS.append(Contract(f, tuple(props), tuple(funcs), kind, trials, cost, note, paths, frame, split))
        return f
    return deco
