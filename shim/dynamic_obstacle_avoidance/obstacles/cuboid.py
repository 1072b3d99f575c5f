import numpy as np
from numpy import linalg as LA

from dynamic_obstacle_avoidance.obstacles._base import Obstacle
from vartools.math import CircleIntersectionType


class CuboidXd(Obstacle):
    """Axes-aligned (local frame) cuboid; the margin is rounded at the edges, the
    normal outside is the direction away from the closest point."""

    def __init__(self, axes_length, **kwargs):
        self.axes_length = np.array(axes_length, dtype=float)
        if (
            kwargs.get("center_position") is None
            and kwargs.get("pose") is None
        ):
            kwargs["center_position"] = np.zeros(self.axes_length.shape[0])
        super().__init__(**kwargs)

    @property
    def axes_with_margin(self):
        margin = -self.margin_absolut if self.is_boundary else self.margin_absolut
        return self.axes_length + 2 * margin

    @property
    def semiaxes(self):
        return self.axes_length / 2.0

    def create_shape(self):
        """Outline (with margin) in the global frame, planar obstacles only."""
        from shapely.geometry import Polygon

        semi = self.axes_length * 0.5
        corners = [semi * np.array(sign) for sign in [(1, 1), (-1, 1), (-1, -1), (1, -1)]]
        self.shape = Polygon(
            [self.pose.transform_position_from_relative(cc) for cc in corners]
        )
        if self.margin_absolut:
            self.shape = self.shape.buffer(self.margin_absolut)

    def _sdf(self, position):
        semi = self.axes_length * 0.5
        qq = np.abs(position) - semi
        margin = self.margin_absolut
        if self.is_boundary:
            margin = -margin
        return LA.norm(np.maximum(qq, 0)) + min(np.max(qq), 0.0) - margin

    def _signed_distance(self, position):
        return self._sdf(position)

    def _point_on_surface(self, position):
        direction = position / LA.norm(position)
        margin = -self.margin_absolut if self.is_boundary else self.margin_absolut
        semi = self.axes_length * 0.5
        with np.errstate(divide="ignore"):
            t_box = np.min(semi / np.abs(direction))
        if margin <= 0:
            with np.errstate(divide="ignore"):
                return np.min((semi + margin) / np.abs(direction)) * direction
        low, high = t_box, t_box
        while self._sdf(high * direction) < 0:
            high = high + 2 * margin
        for _ in range(80):
            mid = 0.5 * (low + high)
            if self._sdf(mid * direction) < 0:
                low = mid
            else:
                high = mid
        return high * direction

    def _outward_normal(self, position):
        semi = self.axes_length * 0.5
        delta = np.abs(position) - semi
        out = np.maximum(delta, 0)
        if norm := LA.norm(out):
            return np.copysign(out, position) / norm
        normal = np.zeros_like(position)
        ii = np.argmax(np.abs(position) / semi)
        normal[ii] = np.copysign(1.0, position[ii])
        return normal

    def get_maximal_distance(self):
        return LA.norm(self.axes_length) * 0.5

    get_characteristic_length = get_maximal_distance

    def get_intersection_with_surface(
        self,
        start_position=None,
        direction=None,
        in_global_frame=False,
        intersection_type=None,
        edge_point=None,
        **kwargs,
    ):
        if start_position is None:
            start_position = edge_point
        if start_position is None:
            start_position = (
                self.center_position if in_global_frame else np.zeros(self.dimension)
            )
        if in_global_frame:
            start_position = self.pose.transform_position_to_relative(start_position)
            direction = self.pose.transform_direction_to_relative(direction)
        start = np.array(start_position, dtype=float)
        direction = np.array(direction, dtype=float)
        semi = self.axes_with_margin * 0.5
        t_low, t_high = -np.inf, np.inf
        for ii in range(start.shape[0]):
            if abs(direction[ii]) < 1e-14:
                if abs(start[ii]) > semi[ii]:
                    return None
                continue
            t1 = (-semi[ii] - start[ii]) / direction[ii]
            t2 = (semi[ii] - start[ii]) / direction[ii]
            t_low = max(t_low, min(t1, t2))
            t_high = min(t_high, max(t1, t2))
        if t_low > t_high:
            return None
        if intersection_type is None:
            # First crossing along the ray
            tt = t_low if t_low > 0 else t_high
        else:
            tt = t_low if intersection_type == CircleIntersectionType.CLOSE else t_high
        point = start + tt * direction
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    _get_intersection_with_surface = get_intersection_with_surface


Cuboid = CuboidXd
