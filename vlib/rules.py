"""Rules decided by inspecting the type-checked program, one module per kind."""


def decide(pid, work, tier):
    if pid == "P05":
        from . import shapes
        return shapes.decide(work, tier)
    from . import items
    return items.decide(pid, work, tier)
