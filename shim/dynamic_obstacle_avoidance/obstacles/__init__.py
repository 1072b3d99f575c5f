from dynamic_obstacle_avoidance.obstacles._base import Obstacle
from dynamic_obstacle_avoidance.obstacles.ellipse import Ellipse, EllipseWithAxes
from dynamic_obstacle_avoidance.obstacles.cuboid import CuboidXd
from dynamic_obstacle_avoidance.obstacles.flower import StarshapedFlower
