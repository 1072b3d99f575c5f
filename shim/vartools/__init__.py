"""Offline stand-in for `vartools` (hubernikus/various_tools).

Only the part of the API that nonlinear_avoidance imports.  Written from the
documented behaviour of the original; see /verif/DESIGN.md, section "stand-ins".
"""
from vartools.linalg import cross2d  # noqa
