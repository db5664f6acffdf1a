PROPS = {}


def prop(pid, specs, level="proof", assumptions=(), bounded=()):
    PROPS.setdefault(pid, dict(specs=[], level=level, assumptions=[], bounded=[]))
    PROPS[pid]["specs"] += list(specs)
    PROPS[pid]["assumptions"] += list(assumptions)
    PROPS[pid]["bounded"] += list(bounded)
