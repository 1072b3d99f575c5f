def _noop(*args, **kwargs):
    return None


plot_obstacles = _noop


class Simulation_vectorFields:
    def __init__(self, *args, **kwargs):
        pass


from dynamic_obstacle_avoidance.visualization.plot_obstacle_dynamics import (  # noqa
    plot_obstacle_dynamics,
)
