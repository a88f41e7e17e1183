"""Reference model of an item's configuration (C05, C06, C24)."""


class Item:
    """file: what the config file evaluates to now; over: settings of enclosing
    sections; kept: last persistent update per argument since the last reset"""

    def __init__(self, file, over=None):
        self.file = dict(file)
        self.over = dict(over or {})
        self.kept = {}
        self.cur = None

    def touch(self):
        """config files are read when the item is first used"""
        if self.cur is None:
            self.cur = {**self.file, **self.over}
        return self.cur

    def update(self, d, persist=True):
        self.touch()
        self.cur.update(d)
        if persist:
            self.kept.update(d)

    def refresh(self):
        self.touch()
        self.cur = {**self.file, **self.over, **self.kept}

    def reset(self):
        self.kept = {}
        self.cur = {**self.file, **self.over}

    def forget(self):
        self.kept = {}
        self.cur = None
