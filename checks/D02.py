from checks.download import both


def run(c):
    both(c, "D02")
