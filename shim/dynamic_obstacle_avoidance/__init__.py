"""Offline stand-in for `dynamic_obstacle_avoidance`; see /verif/DESIGN.md."""
