import numpy as np
from numpy import linalg as LA

from vartools.states import ObjectPose, Pose

from vartools.math import get_intersection_with_circle, CircleIntersectionType

LARGE = 1e12


class Obstacle:
    def __init__(
        self,
        center_position=None,
        orientation=None,
        pose=None,
        is_boundary=False,
        tail_effect=True,
        name=None,
        margin_absolut=0.0,
        distance_scaling=1.0,
        linear_velocity=None,
        angular_velocity=None,
        dimension=None,
        **kwargs,
    ):
        if pose is not None:
            self.pose = pose
        else:
            if center_position is None:
                center_position = np.zeros(2 if dimension is None else dimension)
            self.pose = ObjectPose(position=center_position, orientation=orientation)
        self.is_boundary = is_boundary
        self.tail_effect = tail_effect
        self.name = name
        self.margin_absolut = 0.0 if margin_absolut is None else margin_absolut
        self.distance_scaling = distance_scaling
        self.linear_velocity = (
            np.zeros(self.pose.dimension) if linear_velocity is None else np.array(linear_velocity)
        )
        self.angular_velocity = angular_velocity
        self._reference_point = np.zeros(self.pose.dimension)
        self._relative_reference_point = None
        self.position_updater = None

    # -- pose --------------------------------------------------------------
    @property
    def dimension(self):
        return self.pose.dimension

    dim = dimension

    @property
    def center_position(self):
        return self.pose.position

    @center_position.setter
    def center_position(self, value):
        self.pose.position = np.array(value, dtype=float)

    position = center_position

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value

    @property
    def twist(self):
        from vartools.states import Twist

        return Twist(self.linear_velocity, self.angular_velocity)

    @twist.setter
    def twist(self, value):
        self.linear_velocity = value.linear
        self.angular_velocity = value.angular

    def transform_global2relative(self, position):
        return self.pose.transform_position_to_relative(position)

    def transform_relative2global(self, position):
        return self.pose.transform_position_from_relative(position)

    # -- reference point ----------------------------------------------------
    @property
    def reference_point(self):
        return self._reference_point

    local_reference_point = reference_point

    @property
    def global_reference_point(self):
        return self.pose.transform_position_from_relative(self._reference_point)

    @property
    def global_relative_reference_point(self):
        if self._relative_reference_point is None:
            return self.global_reference_point
        return self.pose.transform_position_from_relative(self._relative_reference_point)

    def get_reference_point(self, in_global_frame=False):
        if in_global_frame:
            return self.global_reference_point
        return np.copy(self._reference_point)

    def set_reference_point(self, position, in_global_frame=False):
        position = np.array(position, dtype=float)
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self._reference_point = position

    def set_relative_reference_point(self, position, in_global_frame=True):
        position = np.array(position, dtype=float)
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self._relative_reference_point = position

    def reset_relative_reference(self):
        self._relative_reference_point = None

    # -- helper -------------------------------------------------------------
    def _to_local(self, position, in_obstacle_frame, in_global_frame):
        if in_global_frame is None:
            in_global_frame = not in_obstacle_frame
        position = np.array(position, dtype=float)
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        return position, in_global_frame

    def get_reference_direction(
        self, position, in_obstacle_frame=True, in_global_frame=None
    ):
        """Unit vector from `position` towards the reference point."""
        position, in_global_frame = self._to_local(
            position, in_obstacle_frame, in_global_frame
        )
        direction = self._reference_point - position
        norm = LA.norm(direction)
        if norm:
            direction = direction / norm
        else:
            direction = np.zeros_like(direction)
            direction[0] = 1.0
        if in_global_frame:
            direction = self.pose.transform_direction_from_relative(direction)
        return direction

    # -- geometry; implemented through the three hooks below ------------------
    def _signed_distance(self, position):
        raise NotImplementedError()

    def _outward_normal(self, position):
        raise NotImplementedError()

    def _point_on_surface(self, position):
        raise NotImplementedError()

    def get_point_on_surface(
        self, position, in_obstacle_frame=True, in_global_frame=None, **kwargs
    ):
        position, in_global_frame = self._to_local(
            position, in_obstacle_frame, in_global_frame
        )
        if not LA.norm(position):
            position[0] = 1e-9
        point = self._point_on_surface(position)
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    def get_local_radius(self, position, in_obstacle_frame=True, in_global_frame=None):
        position, _ = self._to_local(position, in_obstacle_frame, in_global_frame)
        if not LA.norm(position):
            position[0] = 1e-9
        return LA.norm(self._point_on_surface(position))

    def get_gamma(
        self,
        position,
        in_obstacle_frame=True,
        in_global_frame=None,
        relative_gamma=None,
        margin_absolut=None,
        **kwargs,
    ):
        """1 on the surface, >1 in free space."""
        position, _ = self._to_local(position, in_obstacle_frame, in_global_frame)
        norm = LA.norm(position)
        if not norm:
            return LARGE if self.is_boundary else 0.0
        local_radius = LA.norm(self._point_on_surface(position))
        if self.is_boundary:
            return local_radius / norm
        if norm < local_radius:
            return norm / local_radius
        return max(self._signed_distance(position), 0.0) * self.distance_scaling + 1

    def get_gamma_derivative(self, position, **kwargs):
        raise NotImplementedError()

    def get_normal_direction(
        self, position, in_obstacle_frame=True, in_global_frame=None
    ):
        position, in_global_frame = self._to_local(
            position, in_obstacle_frame, in_global_frame
        )
        if not LA.norm(position):
            position[0] = 1e-9
        normal = self._outward_normal(position)
        if self.is_boundary:
            normal = -normal
        if in_global_frame:
            normal = self.pose.transform_direction_from_relative(normal)
        return normal

    def is_inside(self, position, in_obstacle_frame=True, in_global_frame=None):
        return (
            self.get_gamma(position, in_obstacle_frame, in_global_frame) <= 1
        )

    # -- misc ----------------------------------------------------------------
    def get_maximal_distance(self):
        return 1.0

    get_characteristic_length = get_maximal_distance
    get_reference_length = get_maximal_distance

    def get_boundary_xy(self, n=50, in_global_frame=True):
        ang = np.linspace(0, 2 * np.pi, n)
        pts = np.array(
            [self._point_on_surface(np.array([np.cos(a), np.sin(a)])) for a in ang]
        ).T
        return self.pose.transform_position_from_relative(pts)

    def draw_obstacle(self, *args, **kwargs):
        pass

    @property
    def boundary_points_global_closed(self):
        return self.get_boundary_xy()
