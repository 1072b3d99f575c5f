import numpy as np
from numpy import linalg as LA

from dynamic_obstacle_avoidance.obstacles._base import Obstacle
from vartools.math import get_intersection_with_circle, CircleIntersectionType


class EllipseWithAxes(Obstacle):
    """Ellipse with axes_length := full length (diameter) of the axes."""

    def __init__(self, axes_length, **kwargs):
        self.axes_length = np.array(axes_length, dtype=float)
        if (
            kwargs.get("center_position") is None
            and kwargs.get("pose") is None
        ):
            kwargs["center_position"] = np.zeros(self.axes_length.shape[0])
        super().__init__(**kwargs)

    @property
    def axes_with_margin(self):
        margin = -self.margin_absolut if self.is_boundary else self.margin_absolut
        return self.axes_length + 2 * margin

    @property
    def semiaxes(self):
        return self.axes_length / 2.0

    @property
    def semiaxes_with_magin(self):
        return self.axes_with_margin / 2.0

    semiaxes_with_margin = semiaxes_with_magin

    def _point_on_surface(self, position):
        return position / LA.norm(position / (self.axes_with_margin * 0.5))

    def _signed_distance(self, position):
        return LA.norm(position) - LA.norm(self._point_on_surface(position))

    def _outward_normal(self, position):
        normal = position / (self.axes_with_margin * 0.5) ** 2
        return normal / LA.norm(normal)

    def get_maximal_distance(self):
        return np.max(self.axes_length) * 0.5

    get_characteristic_length = get_maximal_distance

    def get_reference_length(self):
        return LA.norm(self.axes_length) / 2 + self.margin_absolut

    def get_intersection_with_surface(
        self,
        start_position=None,
        direction=None,
        in_global_frame=False,
        intersection_type=None,
        edge_point=None,
        only_positive_direction=True,
    ):
        """Intersection of a ray with the surface; None if it misses."""
        if start_position is None:
            start_position = edge_point
        if start_position is None:
            start_position = (
                self.center_position if in_global_frame else np.zeros(self.dimension)
            )
        if in_global_frame:
            start_position = self.pose.transform_position_to_relative(start_position)
            direction = self.pose.transform_direction_to_relative(direction)
        axes = self.axes_with_margin
        if intersection_type is None:
            # First crossing along the ray
            is_inside = LA.norm(np.asarray(start_position) / axes) <= 0.5
            intersection_type = (
                CircleIntersectionType.FAR
                if is_inside
                else CircleIntersectionType.CLOSE
            )
        point = get_intersection_with_circle(
            start_position=np.asarray(start_position) / axes,
            direction=np.asarray(direction) / axes,
            radius=0.5,
            intersection_type=intersection_type,
        )
        if point is None:
            return None
        point = (point.T * axes).T
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    _get_intersection_with_surface = get_intersection_with_surface


class Ellipse(EllipseWithAxes):
    """Ellipse with axes_length := semi-axes."""

    @property
    def axes_with_margin(self):
        margin = -self.margin_absolut if self.is_boundary else self.margin_absolut
        return 2 * (self.axes_length + margin)

    @property
    def semiaxes(self):
        return self.axes_length

    def get_maximal_distance(self):
        return np.max(self.axes_length)

    get_characteristic_length = get_maximal_distance
