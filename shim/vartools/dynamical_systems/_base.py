import numpy as np
from numpy import linalg as LA

from vartools.states import ObjectPose


class DynamicalSystem:
    def __init__(
        self,
        pose=None,
        maximum_velocity=None,
        attractor_position=None,
        dimension=None,
        **kwargs,
    ):
        self.maximum_velocity = maximum_velocity
        if attractor_position is not None:
            attractor_position = np.array(attractor_position, dtype=float)
        if pose is not None:
            self.pose = pose
            self.dimension = pose.position.shape[0]
        elif attractor_position is not None:
            self.dimension = attractor_position.shape[0]
            self.pose = ObjectPose(np.zeros(self.dimension))
        else:
            self.dimension = 2 if dimension is None else dimension
            self.pose = ObjectPose(np.zeros(self.dimension))
        if attractor_position is None and pose is None and dimension is not None:
            attractor_position = np.zeros(dimension)
        self._attractor_position = attractor_position

    @property
    def attractor_position(self):
        return self._attractor_position

    @attractor_position.setter
    def attractor_position(self, value):
        self._attractor_position = value

    def limit_velocity(self, velocity, maximum_velocity=None):
        if maximum_velocity is None:
            maximum_velocity = self.maximum_velocity
        if maximum_velocity is None:
            return velocity
        mag = LA.norm(velocity)
        if mag > maximum_velocity:
            velocity = velocity / mag * maximum_velocity
        return velocity

    def check_convergence(self, *args, **kwargs):
        return False

    def compute_dynamics(self, position):
        return self.evaluate(position)

    def evaluate(self, position):
        raise NotImplementedError()


Dynamics = DynamicalSystem
