from enum import Enum

import numpy as np
from numpy import linalg as LA


class CircleIntersectionType(Enum):
    CLOSE = 0
    FAR = 1
    BOTH = 2


IntersectionType = CircleIntersectionType


def get_intersection_with_circle(
    start_position,
    direction,
    radius,
    only_positive=True,
    intersection_type=None,
    center_position=None,
):
    """Intersection(s) of the line `start + t * direction` with the (hyper-)circle.

    `FAR` (default) is the intersection furthest along the direction, `CLOSE` the
    first one, `BOTH` (only_positive=False) a (dim, 2)-array.  None if there is none.
    """
    if intersection_type is None:
        intersection_type = (
            CircleIntersectionType.FAR if only_positive else CircleIntersectionType.BOTH
        )
    start = np.array(start_position, dtype=float)
    direction = np.array(direction, dtype=float)
    if center_position is not None:
        start = start - np.array(center_position)

    aa = np.sum(direction**2)
    if not aa:
        return None
    bb = 2 * np.dot(direction, start)
    cc = np.sum(start**2) - radius**2
    dd = bb**2 - 4 * aa * cc
    if dd < 0:
        return None
    sq = np.sqrt(dd)
    base = np.zeros_like(start) if center_position is None else center_position
    if intersection_type == CircleIntersectionType.FAR:
        return base + start + (-bb + sq) / (2 * aa) * direction
    if intersection_type == CircleIntersectionType.CLOSE:
        return base + start + (-bb - sq) / (2 * aa) * direction
    facs = (-bb + np.array([-1, 1]) * sq) / (2 * aa)
    return (base + start)[:, None] + direction[:, None] * facs[None, :]


def get_intersection_between_line_and_plane(
    line_position,
    line_direction,
    plane_position,
    plane_normal,
    positive_only=False,
):
    line_position = np.array(line_position, dtype=float)
    line_direction = np.array(line_direction, dtype=float)
    denom = np.dot(plane_normal, line_direction)
    if not denom:
        return None
    factor = np.dot(plane_normal, np.array(plane_position) - line_position) / denom
    if positive_only and factor < 0:
        return None
    return line_position + factor * line_direction
