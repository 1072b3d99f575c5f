class Animator:
    def __init__(self, *args, **kwargs):
        self.it_max = kwargs.get("it_max", 0)

    def setup(self, *args, **kwargs):
        raise NotImplementedError()

    def run(self, *args, **kwargs):
        pass
