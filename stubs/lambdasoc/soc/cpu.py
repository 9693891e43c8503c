class CPUSoC:
    """Stand-in: records what it is asked to build."""
    def build(self, **kwargs):
        self.built = kwargs
