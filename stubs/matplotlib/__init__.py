"""Stand-in: sumo.metrics.utils selects a GUI back end at import, which needs a display."""


def use(*a, **k):
    pass
