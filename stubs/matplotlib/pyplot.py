class Figure:
    pass


def figure(*a, **k):
    return Figure()


def plot(*a, **k):
    return []


def _nop(*a, **k):
    return None


xlabel = ylabel = axis = show = close = waitforbuttonpress = _nop
