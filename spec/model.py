"""Reference semantics of pygmo_fwork/pygmol/model.py.  Parsed, never executed."""
import inspect
import os
import numpy as np
import pandas as pd
import yaml
from scipy import constants
from scipy.integrate import solve_ivp
from pygmo_fwork.config import Config
from pygmo_fwork.pygmol.equations import Equations
from pygmo_fwork.pygmol.exceptions import InitialSolutionError, ModelSolutionError, ModelInitError
from pygmo_fwork.pygmol.model_parameters import ModelParameters

@tables('R26')
class Model(object):
    mandatory_chemistry_methods = ('get_species_name', 'get_species_charge', 'get_species_mass', 'get_species_lj_sigma', 'get_species_stick_coef', 'get_reactions_arrh_a', 'get_reactions_arrh_b', 'get_reactions_arrh_c', 'get_reactions_el_en_loss', 'get_reactions_elastic', 'get_reactions_stoich_coefs_electron', 'get_reactions_stoich_coefs_arbitrary', 'get_reactions_id', 'get_return_matrix', 'get_stoichiomatrix', 'num_species', 'num_reactions')

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry, model_params):
        for mandatory_chemistry_method in self.mandatory_chemistry_methods:
            if not hasattr(chemistry, mandatory_chemistry_method) or not inspect.ismethod(getattr(chemistry, mandatory_chemistry_method)):
                raise ModelInitError('The passed chemistry argument does not implement all the mandatory methods!')
        self.chemistry = chemistry
        if not isinstance(model_params, ModelParameters):
            model_params = ModelParameters(model_params)
        self.model_params = model_params
        self.equations = None
        self._build_equations()
        self.sol_raw = None
        self.t = None
        self.sol_primary = None
        self.sol_secondary = None

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def _build_equations(self):
        self.equations = Equations(self.chemistry, self.model_params)

    @spec('E25', aspects='returns raises signature fields effects', fields='*')
    def _build_y0(self, el_temp=1.0, ionisation_degree=1e-15, neg_ion_fraction=1e-15, non_feed_sp_fraction=1e-15):
        gas_temp = self.model_params['Tg']
        pressure = self.model_params['p']
        feeds_dict = self.model_params['feeds']
        charges = np.array(self.chemistry.get_species_charge())
        feeds = np.array([feeds_dict[sp] if sp in feeds_dict else 0.0 for sp in self.chemistry.get_species_name()])
        n_tot = pressure / (constants.k * gas_temp)
        n_e = n_tot * ionisation_degree
        n_neg_ions_tot = n_tot * -sum(charges[charges < 0]) * neg_ion_fraction
        n_neg_tot = n_neg_ions_tot + n_e
        n_pos_tot = n_neg_tot
        n0 = np.zeros(len(charges))
        n0[charges > 0] = n_pos_tot / sum(charges[charges > 0])
        if (charges < 0).any():
            n0[charges < 0] = -n_neg_ions_tot / sum(charges[charges < 0])
        n0[(charges == 0) & (feeds == 0)] = n_tot * non_feed_sp_fraction
        if feeds.sum() > 0:
            n_residual = n_tot - n0.sum()
            n0[feeds > 0] = feeds[feeds > 0] / feeds.sum() * n_residual
        else:
            n_residual = n_tot - n0[charges != 0].sum()
            n0[charges == 0] = n_residual / len(n0[charges == 0])
        rho0 = 3 / 2 * n_e * el_temp
        return np.r_[n0, rho0]

    @spec('E25', aspects='returns raises signature fields effects', fields='*')
    def _y0_from_init_params(self, init_el_temp, init_n):
        if init_n is not None:
            n_series = pd.Series(init_n)
            if list(sorted(n_series.index)) != list(sorted(list(self.chemistry.get_species_name()))):
                raise InitialSolutionError('The init_n dict needs to contain all the species names as keys!')
            n_series = n_series[list(self.chemistry.get_species_name())]
            n_array = np.array(n_series)
            n_e = sum(n_array * np.array(self.chemistry.get_species_charge()))
            rho = 3 / 2 * n_e * init_el_temp
            y0 = np.r_[n_array, rho]
        else:
            y0 = self._build_y0(el_temp=init_el_temp)
        return y0

    @spec('E25', aspects='returns raises signature fields effects', fields='*')
    def _validate_y0(self, y0):
        if len(y0) != self.dimension():
            raise InitialSolutionError('Incorrect dimension of the initial values vector!')
        n0 = y0[:-1]
        charges = np.array(self.chemistry.get_species_charge())
        if sum(n0 * charges) <= 0:
            raise InitialSolutionError('Heavy species total charge density needs to be positive to allow for a positive value of electron density!')

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def _solve(self, y0=None, method='BDF', jacobian=False):
        self._build_equations()
        if y0 is None:
            y0 = self._build_y0()
        self._validate_y0(y0)
        t_end = self.model_params['t_end']
        func, jac = self.equations.get_objective_functions(jacobian=jacobian)
        try:
            self.sol_raw = solve_ivp(func, (0, t_end), y0, method=method, t_eval=None, jac=jac)
        except ValueError as ve:
            raise ModelSolutionError('solve_ivp raised ValueError: {}'.format(str(ve)))
        self._parse_raw_sol()
        self._post_process()

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def _parse_raw_sol(self):
        self.t = self.sol_raw.t
        self.sol_primary = self.sol_raw.y.T

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def _post_process(self):
        self.sol_secondary = pd.DataFrame(self.sol_primary[:, :-1], columns=list(self.chemistry.get_species_name()))
        ne = [self.equations.get_electron_density(y) for y in self.sol_primary]
        temp_e = np.array([self.equations.get_electron_temperature(y) for y in self.sol_primary])
        self.sol_secondary['e'] = pd.Series(ne, index=self.sol_secondary.index)
        self.sol_secondary['Te'] = pd.Series(temp_e, index=self.sol_secondary.index)
        self.sol_secondary['Tg'] = pd.Series(self.model_params['Tg'], index=self.sol_secondary.index)
        self.sol_secondary['p'] = pd.Series(self.diagnose('total_pressure')['value'], index=self.sol_secondary.index)
        self.sol_secondary['t'] = pd.Series(self.t, index=self.sol_secondary.index)
        self.sol_secondary = self.sol_secondary[['t'] + list(self.sol_secondary.columns[:-1])]

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def diagnose(self, quantity, sol_primary=None, totals=False):
        if sol_primary is None:
            sol_primary = self.sol_primary
        diagnostics = pd.DataFrame(np.array([getattr(self.equations, 'get_{}'.format(quantity))(y) for y in sol_primary]))
        if quantity in {'reaction_rates', 'reaction_rate_coefficients', 'el_en_losses'}:
            diagnostics.columns = list(self.chemistry.get_reactions_id())
        elif diagnostics.shape[1] == self.equations.num_species:
            diagnostics.columns = list(self.chemistry.get_species_name())
        elif diagnostics.shape[1] == self.equations.num_species + 1:
            diagnostics.columns = list(self.chemistry.get_species_name()) + ['rho']
        else:
            diagnostics.columns = ['value']
        if totals:
            diagnostics['total'] = diagnostics.sum(axis=1)
        diagnostics['t'] = pd.Series(self.t, index=diagnostics.index)
        diagnostics = diagnostics[['t'] + list(diagnostics.columns[:-1])]
        return pd.DataFrame(diagnostics)

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def dimension(self):
        return self.chemistry.num_species() + 1

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def run(self, init_el_temp=1.0, init_n=None):
        y0 = self._y0_from_init_params(init_el_temp, init_n)
        self._solve(y0=y0)
        if not self.success():
            raise ModelSolutionError(self.sol_raw.message)

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def success(self):
        return bool(self.sol_raw.success)

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def get_solution(self):
        if self.sol_primary is None:
            raise ModelSolutionError('Rates can only be extracted after the model is solved!')
        return self.sol_secondary.copy()

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def get_solution_final(self):
        return self.get_solution().iloc[-1]

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def get_rates(self):
        if self.sol_primary is None:
            raise ModelSolutionError('Rates can only be extracted after the model is solved!')
        rates = self.diagnose('reaction_rates')
        return rates

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def get_rates_final(self):
        return self.get_rates().iloc[-1].drop('t')

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def get_wall_fluxes(self):
        if self.sol_primary is None:
            raise ModelSolutionError('Rates can only be extracted after the model is solved!')
        wall_fluxes = self.diagnose('wall_fluxes')
        return wall_fluxes

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def get_wall_fluxes_final(self):
        return self.get_wall_fluxes().iloc[-1].drop('t')

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def num_species(self):
        return self.chemistry.num_species()

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def num_reactions(self):
        return self.chemistry.num_reactions()

    @spec('R26', aspects='returns raises signature fields effects', fields='*')
    def dump_logs(self, run_results_dir):
        sol_raw_attributes = {attr: getattr(self.sol_raw, attr) for attr in ['nfev', 'njev', 'nlu', 'status', 'message', 'success']}
        with open(os.path.join(run_results_dir, Config.default_log_name('solver_log')), 'w') as stream:
            yaml.dump(sol_raw_attributes, stream=stream)
