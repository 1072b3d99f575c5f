import numpy as np


class BaseContainer:
    def __init__(self, obs_list=None, *args, **kwargs):
        self._obstacle_list = [] if obs_list is None else list(obs_list)

    def __getitem__(self, key):
        return self._obstacle_list[key]

    def __setitem__(self, key, value):
        self._obstacle_list[key] = value

    def __delitem__(self, key):
        del self._obstacle_list[key]

    def __len__(self):
        return len(self._obstacle_list)

    def __iter__(self):
        return iter(self._obstacle_list)

    def append(self, value):
        self._obstacle_list.append(value)

    @property
    def list(self):
        return self._obstacle_list

    @property
    def n_obstacles(self):
        return len(self._obstacle_list)

    number = n_obstacles

    @property
    def dimension(self):
        return self._obstacle_list[0].dimension if self._obstacle_list else 0

    dim = dimension

    def get_minimum_gamma(self, position):
        if not len(self):
            return 1e9
        return np.min(
            [obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list]
        )

    def is_collision_free(self, position):
        return self.get_minimum_gamma(position) > 1

    def check_collision(self, position):
        return self.get_minimum_gamma(position) <= 1


class ObstacleContainer(BaseContainer):
    pass


class MultiBoundaryContainer(BaseContainer):
    pass


class RotationContainer(BaseContainer):
    pass
