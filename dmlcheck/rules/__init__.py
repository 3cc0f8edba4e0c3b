"""Syntactic/flow rules over the whole package: RULES = [(property, function(root) -> [(label, status, detail, loc)])]"""
RULES = []


def rule(*pids):
    def deco(f):
        for p in pids:
            RULES.append((p, f))
        return f
    return deco
