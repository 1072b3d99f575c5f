"""C21: regions of a k-means clustering."""
import math
import sys

import numpy as np

from lib.gen import angle, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, random_rotation, unit

from nonlinear_avoidance.kmeans_learner.kmeans_obstacle import KMeansObstacle

PROPERTY = "C21"
RULE = (
    "One to seven cluster centers in two to three dimensions (free or on a grid), any "
    "region of them with a radius from well below to well above the distances, positions "
    "inside, on and outside the surface. Non-trivial: at least one neighbour cuts the ball."
)
ASSUMPTIONS = [
    "The clustering provides nothing but its cluster centers.",
    "Positions closer than 1e-6 to the surface are neither called inside nor outside.",
]


class Clustering:
    def __init__(self, centers):
        self.cluster_centers_ = centers


@st.composite
def region_case(draw):
    dim = draw(st.integers(2, 3))
    grid = draw(st.booleans())
    point = st.lists(st.integers(-2, 2).map(float), min_size=dim, max_size=dim) if grid else vec(dim, -3.0, 3.0)
    centers = draw(
        st.lists(point, min_size=1, max_size=10).filter(
            lambda pts: all(math.dist(a, b) > 0.3 for i, a in enumerate(pts) for b in pts[:i])
        )
    )
    return {
        "centers": centers,
        "index": draw(st.integers(0, len(centers) - 1)),
        "radius": draw(num(0.3, 4.0)),
        "directions": [draw(nonzero_vec(dim, -1.0, 1.0)) for _ in range(3)],
        "towards": draw(st.integers(0, 6)),
        "shares": [draw(st.one_of(num(0.05, 0.98), num(1.02, 3.0), num(0.9, 0.9999), num(1.0001, 1.1))) for _ in range(3)],
        "turn": draw(st.lists(angle(), min_size=3, max_size=3)),
        "shift": draw(vec(dim, -4.0, 4.0)),
    }


def build(case, centers=None):
    centers = arr(case["centers"]) if centers is None else centers
    return KMeansObstacle(kmeans=Clustering(centers), radius=case["radius"], index=case["index"])


class Region:
    """Ball around the center, cut by the planes halfway to the close neighbours."""

    def __init__(self, case):
        self.centers = arr(case["centers"])
        self.index = case["index"]
        self.radius = case["radius"]
        self.center = self.centers[self.index]
        self.walls = {}
        self.near = True
        for ii, other in enumerate(self.centers):
            dist = np.linalg.norm(other - self.center)
            if ii == self.index:
                continue
            # Barely touching walls are undecidable
            discard_unless(abs(dist - 2 * self.radius) > 1e-6)
            if dist > 2 * self.radius:
                continue
            self.walls[ii] = ((other - self.center) / dist, dist / 2)

    def extent(self, direction):
        """Distance to the surface and the wall there (own index: the ball)."""
        lengths = [(self.radius, self.index)]
        for ii, (normal, dist) in self.walls.items():
            along = np.dot(normal, direction)
            if along > 1e-9:
                lengths.append((dist / along, ii))
        return sorted(lengths)

    def excess(self, position):
        """Signed distance from each of the surfaces."""
        delta = position - self.center
        values = {self.index: np.linalg.norm(delta) - self.radius}
        for ii, (normal, dist) in self.walls.items():
            values[ii] = np.dot(normal, delta) - dist
        return values

    def outward(self, wall, direction):
        return direction if wall == self.index else self.walls[wall][0]


def directions_of(case, region):
    result = [unit(x) for x in case["directions"]]
    others = [ii for ii in range(len(region.centers)) if ii != region.index]
    if others:
        result[0] = unit(region.centers[others[case["towards"] % len(others)]] - region.center)
    return result


def check_surface(case):
    region, body = Region(case), build(case)
    center, dim = region.center, len(region.center)
    require(close(body.center_position, center, 0) and body.dimension == dim, "Center")
    require(body.n_clusters == len(region.centers), "Number of clusters")
    require(body.num_relevant == len(region.walls), "Number of neighbours", got=body.num_relevant)
    for ii, (normal, dist) in region.walls.items():
        require(close(body.get_inbetween_position(ii), center + normal * dist, 1e-9), "Position in between")

    # At the center
    for in_global in (True, False):
        position = center.copy() if in_global else np.zeros(dim)
        before = position.copy()
        value = body.get_normal_direction(position, in_global_frame=in_global)
        require(is_vector(value, dim) and abs(np.linalg.norm(value) - 1) < 1e-9, "Normal at the center", got=value)
        point = body.get_point_on_surface(position, in_global_frame=in_global)
        point = point if in_global else point + center
        require(abs(max(region.excess(point).values())) < 1e-7, "Surface point at the center", got=point)
        require(body.get_gamma(position, in_global_frame=in_global) > 1e9, "Gamma at the center")
        require(body.is_inside(position, in_global_frame=in_global), "Center is outside")
        require(close(before, position, 0), "Position modified at the center")

    for direction, share in zip(directions_of(case, region), case["shares"]):
        (length, wall), *others = region.extent(direction)
        position = center + share * length * direction
        before = position.copy()
        point = body.get_point_on_surface(position, in_global_frame=True)
        require(close(point, center + length * direction, 1e-6), "Surface point", got=point, want=center + length * direction)
        local = body.get_point_on_surface(position - center, in_global_frame=False)
        require(close(local, length * direction, 1e-6), "Surface point (local)", got=local)
        reference = body.get_reference_direction(position, in_global_frame=True)
        require(close(reference, -direction, 1e-7), "Reference direction points to the center")
        reference = body.get_reference_direction(position - center, in_global_frame=False)
        require(close(reference, -direction, 1e-7), "Reference direction (local)")

        # Next to the center, up to rounding
        for tiny in (1e-8, 1e-11, 1e-16, 1e-30):
            level = body.get_gamma(tiny * direction)
            require(level > 1e5, "Gamma next to the center", got=level, distance=tiny)
            require(body.is_inside(tiny * direction), "Next to the center, but outside", distance=tiny)
            got = body.get_normal_direction(tiny * direction)
            require(is_vector(got, dim), "Normal next to the center", got=got)

        # Exactly at the (calculated) surface
        level = body.get_gamma(point, in_global_frame=True, ind_transparent=-1)
        require(abs(level - 1) < 1e-6, "Gamma at the surface", got=level, position=point)
        gap = min([entry[0] for entry in others], default=math.inf) - length
        if gap > 1e-3:
            want = -region.outward(wall, direction)
            got = body.get_normal_direction(point, in_global_frame=True)
            require(close(got, want, 1e-6), "Normal at the surface", got=got, want=want)
            for factor in (1 - 1e-7, 1 + 1e-7):
                near = center + factor * length * direction
                got = body.get_normal_direction(near, in_global_frame=True)
                require(close(got, want, 1e-3), "Normal close to the surface", got=got, want=want)

        if abs(share - 1) * length > 1e-6:
            inside = share < 1
            require(bool(body.is_inside(position, in_global_frame=True)) == inside, "Inside", share=share)
            require(bool(body.is_inside(position - center)) == inside, "Inside (local)", share=share)
        require(close(before, position, 0), "Position modified")
    points = body.evaluate_surface_points(n_points=7) if dim == 2 else np.zeros((dim, 0))
    if dim == 2:
        angles = np.sort(np.arctan2(points[1] - center[1], points[0] - center[0]))
        gaps = np.append(np.diff(angles), angles[0] + 2 * math.pi - angles[-1])
        require(np.max(gaps) < 2 * math.pi / 6 + 1e-6, "Surface points go around", angles=angles)
    for point in points.T:
        require(abs(max(region.excess(point).values())) < 1e-6, "Evaluated surface point", got=point)
    return ["" if region.walls else "trivial"]


def check_gamma(case):
    region, body = Region(case), build(case)
    center, dim = region.center, len(region.center)
    matrix, shift = random_rotation(dim, case["turn"]), arr(case["shift"])
    moved = build(case, region.centers @ matrix.T + shift)
    labels = []
    for direction, share in zip(directions_of(case, region), case["shares"]):
        lengths = region.extent(direction)
        length = lengths[0][0]
        discard_unless(abs(share - 1) * length > 1e-5)
        position = center + share * length * direction
        level = body.get_gamma(position, in_global_frame=True)
        # Weighted by how far the surfaces are exceeded, mirrored if inside
        outer = position if share > 1 else center + (length / share) * direction
        norm = np.linalg.norm(outer - center)
        excess = {ii: max(v, 0.0) for ii, v in region.excess(outer).items()}
        total = sum(excess.values())
        want = sum(v / total * (norm - v) for v in excess.values()) / (share * length)
        require(abs(level - want) < 1e-5 * max(want, 1), "Gamma", got=level, want=want, share=share)
        require((level > 1) == (share < 1), "Gamma is above one if and only if inside", gamma=level, share=share)
        local = body.get_gamma(position - center, in_global_frame=False)
        require(abs(local - level) < 1e-6 * max(level, 1), "Gamma in the local frame", got=local)

        normal = body.get_normal_direction(position, in_global_frame=True)
        require(is_vector(normal, dim) and abs(np.linalg.norm(normal) - 1) < 1e-6, "Normal is not a unit vector")
        # The outwards direction, turned towards the exceeded walls by their weights
        turn = np.zeros(dim)
        for ii, value in excess.items():
            outward = region.outward(ii, direction)
            across = outward - direction * np.dot(outward, direction)
            if np.linalg.norm(across) > 1e-12:
                turn += value / total * angle_between(outward, direction) * unit(across)
        phi = np.linalg.norm(turn)
        want = -direction if phi < 1e-12 else -math.cos(phi) * direction - math.sin(phi) * turn / phi
        require(close(normal, want, 1e-5), "Normal", got=normal, want=want)
        local = body.get_normal_direction(position - center, in_global_frame=False)
        require(close(local, normal, 1e-6), "Normal in the local frame", got=local)

        other = moved.get_gamma(matrix @ position + shift, in_global_frame=True)
        require(abs(other - level) < 1e-5 * max(level, 1), "Gamma depends on the frame", got=other, want=level)
        other = moved.get_normal_direction(matrix @ position + shift, in_global_frame=True)
        require(close(other, matrix @ normal, 1e-4), "Normal depends on the frame", got=other)

        # Open walls
        for ii in range(len(region.centers)):
            if ii == region.index:
                continue
            opened = body.get_gamma(position, in_global_frame=True, ind_transparent=ii)
            body.successor_index = [ii]
            passing = body.get_gamma(position, in_global_frame=True)
            within = bool(body.is_inside(position, in_global_frame=True))
            closed = body.get_gamma(position, in_global_frame=True, ind_transparent=-1)
            body.successor_index = []
            require(passing == opened, "Wall to the successor is open", got=passing, want=opened)
            require(within == (share < 1), "Position outside of an open wall is not inside", share=share)
            require(abs(closed - level) < 1e-9 * max(level, 1), "All walls closed")
            weight = excess.get(ii, 0.0) / total
            if weight < 1e-9:
                require(abs(opened - level) < 1e-5 * max(level, 1), "Wall which is not close has an influence", wall=ii)
                continue
            labels.append("open")
            most = max(v / total for jj, v in excess.items() if jj != ii)
            require(opened > level - 1e-6 * max(1, level), "Open wall lowers Gamma", got=opened, closed=level)
            if most > weight + 1e-6:
                require(opened < 1e9, "Unlimited Gamma at a closed wall", got=opened, wall=ii)
            if weight > 1 - 1e-9 or weight > most + 1e-6:
                require(opened > 1e9, "Passage through the open wall", got=opened, wall=ii)
            elif share < 1:
                require(opened > 1 - 1e-6, "Inside, but no free space with an open wall", got=opened)
    return labels + ["" if region.walls else "trivial"]


SUBS = [
    Sub("surface", region_case(), check_surface, quick=1000, shards=2, thorough=20000),
    Sub("gamma", region_case(), check_gamma, quick=1200, shards=3, thorough=20000),
]
