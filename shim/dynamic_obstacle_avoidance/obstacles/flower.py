import numpy as np
from numpy import linalg as LA

from dynamic_obstacle_avoidance.obstacles._base import Obstacle


class StarshapedFlower(Obstacle):
    def __init__(
        self,
        radius_magnitude=1.0,
        radius_mean=2.0,
        number_of_edges=4,
        property_functor=None,
        **kwargs,
    ):
        super().__init__(**kwargs)
        self.radius_magnitude = radius_magnitude
        self.radius_mean = radius_mean
        self.number_of_edges = number_of_edges

    def get_radius_of_angle(self, angle):
        return (
            self.radius_mean
            + self.radius_magnitude * np.cos(angle * self.number_of_edges)
            + self.margin_absolut
        )

    def _point_on_surface(self, position):
        return (
            self.get_radius_of_angle(np.arctan2(position[1], position[0]))
            * position
            / LA.norm(position)
        )

    def _signed_distance(self, position):
        return LA.norm(position) - LA.norm(self._point_on_surface(position))

    def _outward_normal(self, position):
        ang = np.arctan2(position[1], position[0])
        rad = self.get_radius_of_angle(ang)
        drad = -self.radius_magnitude * self.number_of_edges * np.sin(
            ang * self.number_of_edges
        )
        er = np.array([np.cos(ang), np.sin(ang)])
        et = np.array([-np.sin(ang), np.cos(ang)])
        normal = rad * er - drad * et
        return normal / LA.norm(normal)

    def get_maximal_distance(self):
        return self.radius_mean + self.radius_magnitude

    def get_intersection_with_surface(
        self,
        start_position=None,
        direction=None,
        in_global_frame=False,
        intersection_type=None,
        **kwargs,
    ):
        """First crossing of the surface along the ray."""
        if start_position is None:
            start_position = (
                self.center_position if in_global_frame else np.zeros(self.dimension)
            )
        if in_global_frame:
            start_position = self.pose.transform_position_to_relative(start_position)
            direction = self.pose.transform_direction_to_relative(direction)
        start = np.array(start_position, dtype=float)
        direction = np.array(direction, dtype=float)
        direction = direction / LA.norm(direction)

        def outside(tt):
            point = start + tt * direction
            if not LA.norm(point):
                return False
            return LA.norm(point) > LA.norm(self._point_on_surface(point))

        t_max = LA.norm(start) + 2 * (self.get_maximal_distance() + self.margin_absolut)
        grid = np.linspace(0.0, t_max, 400)
        out = [outside(tt) for tt in grid]
        # First crossing along the ray
        crossing = [ii for ii in range(len(grid) - 1) if out[ii] != out[ii + 1]]
        if not len(crossing):
            return None
        low, high = grid[crossing[0]], grid[crossing[0] + 1]
        start_state = out[crossing[0]]
        for _ in range(60):
            mid = 0.5 * (low + high)
            if outside(mid) == start_state:
                low = mid
            else:
                high = mid
        point = start + high * direction
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point
