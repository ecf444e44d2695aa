class CaseInsensitiveDict(dict):
    def __init__(self, d=()):
        super().__init__()
        for k, v in dict(d).items():
            self[k] = v

    def __setitem__(self, k, v):
        super().__setitem__(k.lower(), v)

    def __getitem__(self, k):
        return super().__getitem__(k.lower())

    def __delitem__(self, k):
        super().__delitem__(k.lower())

    def __contains__(self, k):
        return super().__contains__(k.lower())

    def get(self, k, default=None):
        return super().get(k.lower(), default)
