"""Registry of contracts."""
CONTRACTS = {}


class Contract(object):
    def __init__(self, pid, name, fn, cases, thorough, functions, conc,
                 prove, paths, seconds, runs, bound=None):
        self.bound = bound
        self.pid, self.name, self.fn = pid, name, fn
        self.cases, self.thorough = cases, thorough
        self.functions = functions
        self.conc, self.prove = conc, prove
        self.paths, self.seconds, self.runs = paths, seconds, runs

    def all_cases(self, tier):
        out = list(self.cases)
        if tier == "thorough":
            out += [c for c in self.thorough if c not in out]
        return out


def contract(pid, functions=(), cases=({},), thorough=(), conc=True,
             prove=True, paths=300, seconds=25.0, runs=6, bound=None):
    """functions: the functions of /repo the contract specifies; bound: what
    the cases fix that the property leaves free (labelled bounded)."""
    def deco(fn):
        c = Contract(pid, fn.__name__, fn, [dict(x) for x in cases],
                     [dict(x) for x in thorough],
                     list(functions), conc, prove, paths, seconds, runs, bound)
        CONTRACTS.setdefault(pid, []).append(c)
        return fn
    return deco
