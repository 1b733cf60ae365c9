"""Kernels as a user of the library would define them."""

import env  # noqa: F401
import equinox as eqx
import jax
import jax.numpy as jnp

from smolgp.kernels import Wrapper
from smolgp.kernels.base import StateSpaceModel
from smolgp.kernels.integrated import IntegratedStateSpaceModel


def when(X):
    return X[0] if isinstance(X, tuple) else X


class User(StateSpaceModel):
    """Defined by its matrices alone"""

    F: jax.Array
    P: jax.Array
    L: jax.Array
    Qc: jax.Array
    H: jax.Array

    def __init__(self, F, P, L, Qc, H, name="User"):
        self.F, self.P, self.L, self.Qc, self.H, self.name = F, P, L, Qc, H, name

    def design_matrix(self):
        return self.F

    def stationary_covariance(self):
        return self.P

    def observation_matrix(self, X):
        return self.H[None, :]

    def noise(self):
        return self.Qc

    def noise_effect_matrix(self):
        return self.L


class VanLoanUser(User):
    """Prefers the process noise from the driving noise"""

    def process_noise(self, X1, X2, use_van_loan=True):
        return super().process_noise(X1, X2, use_van_loan=use_van_loan)


class SwappedUser(User):
    """Coordinates are (label, time)"""

    def coord_to_sortable(self, X):
        return X[1] if isinstance(X, tuple) else X


class Derivatives(Wrapper):
    """A combination of the states of another kernel, e.g. its derivatives"""

    coefs: jax.Array

    def __init__(self, kernel, coefs, name="Derivatives"):
        self.kernel, self.coefs, self.name = kernel, coefs, name

    def observation_matrix(self, X):
        return self.coefs[None, :]


class Gain(Wrapper):
    """Observed with a gain that depends on time"""

    pars: jax.Array

    def __init__(self, kernel, pars, name="Gain"):
        self.kernel, self.pars, self.name = kernel, pars, name

    def observation_matrix(self, X):
        a, b, c, p = self.pars
        return (a + b * jnp.cos(c * when(X) + p)) * self.kernel.observation_matrix(X)


class Channels(Wrapper):
    """Observed with a gain that depends on a second coordinate, a label"""

    gains: jax.Array

    def __init__(self, kernel, gains, name="Channels"):
        self.kernel, self.gains, self.name = kernel, gains, name

    def observation_matrix(self, X):
        return self.gains[X[1]] * self.kernel.observation_matrix(X)


class Sensors(Wrapper):
    """Observed in a combination of its states that depends on a second coordinate, a label"""

    rows: jax.Array

    def __init__(self, kernel, rows, name="Sensors"):
        self.kernel, self.rows, self.name = kernel, rows, name

    def observation_matrix(self, X):
        return self.rows[X[1]][None, :]


class Integrated(IntegratedStateSpaceModel):
    """An integrated model of any base"""

    def __init__(self, base_model, num_insts=1, name="Integrated"):
        self.base_model, self.num_insts, self.name = base_model, num_insts, name
