from vartools.dynamical_systems import *  # noqa
from vartools.dynamical_systems import Dynamics, LinearSystem, ConstantValue  # noqa
from vartools.dynamical_systems import WavyRotatedDynamics, SinusAttractorSystem  # noqa
from vartools.dynamical_systems import QuadraticAxisConvergence  # noqa
