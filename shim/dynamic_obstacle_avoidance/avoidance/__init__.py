class BaseAvoider:
    def __init__(self, initial_dynamics=None, obstacle_environment=None, **kwargs):
        self.initial_dynamics = initial_dynamics
        self.obstacle_environment = obstacle_environment

    def evaluate(self, position):
        return self.avoid(position, self.initial_dynamics.evaluate(position))

    def avoid(self, position, velocity):
        raise NotImplementedError()


class ModulationAvoider(BaseAvoider):
    pass
