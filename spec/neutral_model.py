"""Reference semantics of pygmo_fwork/pygmol/neutral_model.py.  Parsed, never executed."""
import numpy as np
import pandas as pd
from scipy import constants
from pygmo_fwork.pygmol.model import Model
from pygmo_fwork.pygmol.exceptions import InitialSolutionError
from pygmo_fwork.pygmol.equations import Equations
from plaschem.chemistry import Chemistry
from plaschem.exceptions import ChemistryConsistencyError

@tables('N30')
class NeutralChemistry(Chemistry):
    requires_charge = False

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def assert_consistency(self):
        species_charge = self.get_species_charge()
        if not (species_charge.values == 0).all():
            raise ChemistryConsistencyError('NeutralChemistry cannot contain charged species!')
        super().assert_consistency()

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_stoich_coefs_electron(self, disabled=False, method='net'):
        reactions = self.get_reactions(disabled=disabled)
        reactions_stoich_coefs_electron = pd.Series(index=reactions.index, dtype='i')
        return reactions_stoich_coefs_electron.fillna(0)

class NeutralEquations(Equations):

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry, model_params):
        super().__init__(chemistry, model_params)
        assert not self.species_charge.any()

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def get_electron_temperature(self, y, n_e=None, rho=None):
        return np.nan

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def get_electron_density(self, y, n=None):
        return 0.0

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def get_reaction_rate_coefficients(self, y, temp_e=None):
        return self.k_r

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def get_mean_speeds(self, y, temp_i=None):
        return self.v_m

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def get_sigma_sc(self, y, v_m=None, debye_length=None):
        return self.sigma_sc

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
        if diff_c_free is None:
            diff_c_free = self.get_free_diffusivities(y)
        return diff_c_free

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def get_objective_functions(self, jacobian=False):
        if jacobian:
            raise NotImplementedError('Jacobian function not implemented!')
        obj_function_jacobian = None
        drho_dt = 0.0

        def obj_function(t, y):
            n = self.get_density_vector(y)
            n_tot = self.get_total_density(y, n=n)
            p = self.get_total_pressure(y, n_tot=n_tot)
            k = self.get_reaction_rate_coefficients(y)
            rates = self.get_reaction_rates(y, n=n, n_e=0.0, n_tot=n_tot, k_r=k)
            source_vol = self.get_volumetric_source_rates(y, rates=rates)
            source_flow = self.get_flow_source_rates(y, n=n, p=p)
            v_m = self.get_mean_speeds(y)
            sigma_sc = self.get_sigma_sc(y, v_m=v_m)
            mfp = self.get_mean_free_paths(y, n=n, sigma_sc=sigma_sc)
            diff_c_free = self.get_free_diffusivities(y, mfp=mfp, v_m=v_m)
            diff = self.get_diffusivities(y, diff_c_free=diff_c_free)
            wall_fluxes = self.get_wall_fluxes(y, n=n, diff_c=diff, v_m=v_m)
            source_diff_sinks = self.get_diffusion_sinks(y, wall_fluxes=wall_fluxes)
            source_diff_sources = self.get_diffusion_sources(y, diff_sinks=source_diff_sinks)
            source_diff = self.get_diffusion_source_rates(y, diff_sinks=source_diff_sinks, diff_sources=source_diff_sources)
            min_n_cor = self.get_min_n_correction(y, n=n)
            dn_dt = self.get_dn_dt(y, vol_source_rates=source_vol, flow_source_rates=source_flow, diff_source_rates=source_diff, min_n_correction=min_n_cor)
            dy_dt = self.get_dy_dt(t, y, dn_dt=dn_dt, drho_dt=drho_dt)
            return dy_dt
        return (obj_function, obj_function_jacobian)

class NeutralModel(Model):

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry, model_params):
        assert not any(chemistry.get_species_charge()), 'The passed chemistry needs to be neutral!'
        super().__init__(chemistry, model_params)

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def _build_equations(self):
        self.equations = NeutralEquations(self.chemistry, self.model_params)

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def _build_y0(self, *args, **kwargs):
        gas_temp = self.model_params['Tg']
        pressure = self.model_params['p']
        feeds_dict = self.model_params['feeds']
        n_tot = pressure / (constants.k * gas_temp)
        non_feed_sp_fraction = 1e-15
        feeds = np.array([feeds_dict[sp] if sp in feeds_dict else 0.0 for sp in self.chemistry.get_species_name()])
        if feeds.sum() > 0:
            n0 = np.ones(self.chemistry.num_species()) * n_tot * non_feed_sp_fraction
            n_residual = n_tot - n0.sum()
            n0[feeds > 0] = feeds[feeds > 0] / feeds.sum() * n_residual
        else:
            n0 = np.ones(self.chemistry.num_species()) * n_tot / self.chemistry.num_species()
        return np.r_[n0, 0.0]

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def _y0_from_init_params(self, init_el_temp, init_n):
        if init_n is not None:
            n_series = pd.Series(init_n)
            if list(sorted(n_series.index)) != list(sorted(list(self.chemistry.get_species_name()))):
                raise InitialSolutionError('The init_n dict needs to contain all the species names as keys!')
            n_array = np.array(n_series[list(self.chemistry.get_species_name())])
            y0 = np.r_[n_array, 0.0]
        else:
            y0 = self._build_y0()
        return y0

    @spec('N30', aspects='returns raises signature fields effects', fields='*')
    def _validate_y0(self, y0):
        if len(y0) != self.dimension():
            raise InitialSolutionError('Incorrect dimension of the initial values vector!')
