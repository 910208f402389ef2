"""Reference semantics of pygmo_fwork/global_model.py.  Parsed, never executed."""
import inspect
import os
import shutil
import yaml
import time
import numpy as np
import pandas as pd
from scipy import constants
from pygmo_fwork.pygmol.model import Model as PyGMol
from pygmo_fwork.results import ResultsParser
from pygmo_fwork.config import Config
from pygmo_fwork.exceptions import GlobalModelInitialGuessError, GlobalModelAttributeError, BackendNoRunError, BackendRunUnsuccessfulError, GlobalModelLogError

@tables('G27')
class GlobalModel(object):
    mandatory_backend_methods = ('run', 'success', 'get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes', 'get_wall_fluxes_final', 'num_species', 'num_reactions', 'dump_logs')

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry, model_parameters, backend='PyGMol'):
        self.backend = backend
        self.model = None
        if self.backend.lower() not in Config.accepted_backends:
            raise GlobalModelAttributeError('Unsupported backend identifier: {}'.format(backend))
        if self.backend.lower() == 'pygmol':
            self.model = PyGMol(chemistry=chemistry, model_params=model_parameters)
        elif self.backend.lower() == 'pygkin':
            raise NotImplementedError
        else:
            raise GlobalModelAttributeError('This can never happen! Fix the Config.accepted_backends class attribute!')
        for method in self.mandatory_backend_methods:
            if not hasattr(self.model, method) or not inspect.ismethod(getattr(self.model, method)):
                raise GlobalModelAttributeError('Some mandatory methods missing from the backend model class!')
        self.last_run_success = None

    @spec('G27', aspects='returns raises signature fields effects', fields='*')
    def reload_model_parameters(self, model_parameters):
        self.__init__(chemistry=self.model.chemistry, model_parameters=model_parameters, backend=self.backend)

    @spec('E25', aspects='returns raises signature fields effects', fields='*')
    def generate_initial_n(self, ionisation_degree=1e-15, neg_ion_fraction=1e-15, non_feed_sp_fraction=1e-15):
        gas_temp = self.model.model_params['Tg']
        pressure = self.model.model_params['p']
        feeds_dict = self.model.model_params['feeds']
        species_names = self.model.chemistry.get_species_name()
        charges = np.array(self.model.chemistry.get_species_charge())
        feeds = np.array([feeds_dict[sp] if sp in feeds_dict else 0.0 for sp in species_names])
        n_tot = pressure / (constants.k * gas_temp)
        n_e = n_tot * ionisation_degree
        n_neg_ions_tot = n_tot * -sum(charges[charges < 0]) * neg_ion_fraction
        n_neg_tot = n_neg_ions_tot + n_e
        n_pos_tot = n_neg_tot
        n0 = np.zeros(len(charges))
        n0[charges > 0] = n_pos_tot / sum(charges[charges > 0])
        if (charges < 0).any():
            n0[charges < 0] = -n_neg_ions_tot / sum(charges[charges < 0])
        n0[(charges == 0) & (feeds == 0)] = n_tot * non_feed_sp_fraction
        if feeds.sum() > 0:
            n_residual = n_tot - n0.sum()
            n0[feeds > 0] = feeds[feeds > 0] / feeds.sum() * n_residual
        else:
            n_residual = n_tot - n0[charges != 0].sum()
            n0[charges == 0] = n_residual / len(n0[charges == 0])
        n0 = [float(n) for n in n0]
        init_n = dict(zip(species_names, n0))
        self.validate_initial_n(init_n)
        return init_n

    @spec('E25', aspects='returns raises signature fields effects', fields='*')
    def validate_initial_n(self, init_n):
        species_names = np.array(self.model.chemistry.get_species_name())
        if not set(init_n) == set(species_names):
            raise GlobalModelInitialGuessError('The passed initial densities dict is inconsistent with chemistry spcs"')
        species_charges = np.array(self.model.chemistry.get_species_charge())
        species_densities = np.array([init_n[sp_name] for sp_name in species_names])
        total_charge_density = sum(species_charges * species_densities)
        if not total_charge_density > 0:
            raise GlobalModelInitialGuessError('The total heavy species charge density needs to be positive!')

    @spec('G27', aspects='returns raises signature fields effects', fields='*')
    def run(self, run_id=None, init_el_temp=1.0, init_n=None, log_results=True, log_to=None, verbose=True, overwrite=False, compress_logs=False):
        self.last_run_success = False
        if log_results:
            if not isinstance(run_id, str):
                raise GlobalModelAttributeError('If logging the run results, (str) run_id needs to be specified')
            if log_to is None:
                log_to = Config().get_results_dir(self.backend)
            if not os.path.isdir(log_to):
                raise GlobalModelLogError('Passed "log_to" path is not a valid directory!')
        if init_el_temp <= 0:
            raise GlobalModelInitialGuessError('Initial electron temperature needs to be positive!')
        if init_n is None:
            init_n = self.generate_initial_n()
        else:
            self.validate_initial_n(init_n)
        if verbose:
            print()
            print('{:*^100}'.format('{} Running {} - Run ID: {} '.format(time.strftime('%H:%M:%S'), self.backend, run_id)))
        start_time = time.time()
        self.model.run(init_el_temp=init_el_temp, init_n=init_n)
        run_time = time.time() - start_time
        self.last_run_success = self.model.success()
        if verbose:
            if self.success():
                convergency = self.check_convergency(self.get_solution(), self.model.model_params, verbose=verbose)
                if (~convergency.values).any():
                    print('{:.^100}'.format(''))
                with pd.option_context('display.float_format', '{:.1E}'.format):
                    print(pd.DataFrame(self.get_solution_final()).T)
                print('Run Time: {} sec'.format(round(run_time, 2)))
            else:
                print('WARNING: Solution Unsuccessful!')
            print('{:*^100}'.format(''))
            print()
        if log_results and self.success():
            init_params = {'init_el_temp': init_el_temp, 'init_n': init_n}
            self.log_results(run_id=run_id, results_dir=log_to, init_params=init_params, overwrite=overwrite, compress=compress_logs)

    @spec('G27', aspects='returns raises signature fields effects', fields='*')
    def success(self):
        if self.last_run_success is None:
            raise BackendNoRunError('Backend model has not been run!')
        return self.last_run_success

    @spec('G27', aspects='returns raises signature fields effects', fields='*')
    def assert_success(self):
        if not self.success():
            raise BackendRunUnsuccessfulError('Last run unsuccessful - no solution!')

    @spec('G29', aspects='returns raises signature fields effects', fields='*')
    def log_results(self, run_id, results_dir, init_params, overwrite=False, compress=False):
        self.assert_success()
        if not os.path.isdir(results_dir):
            raise GlobalModelLogError('Invalid or non existing results_dir!')
        run_results_dir = os.path.join(results_dir, run_id)
        if os.path.relpath(run_results_dir, results_dir).split(os.sep)[0] in {os.curdir, os.pardir}:
            raise GlobalModelLogError('The run_id "{}" is not a valid results subdirectory!'.format(run_id))
        if os.path.isdir(run_results_dir):
            if overwrite:
                shutil.rmtree(run_results_dir)
            else:
                raise GlobalModelLogError('The {} results subdirectory already exists!'.format(run_id))
        os.mkdir(run_results_dir)
        sol = self.get_solution()
        rates = self.get_rates()
        wall_fluxes = self.get_wall_fluxes()
        if compress:
            sol = ResultsParser.compress_solution(sol)
            rates = ResultsParser.compress_solution(rates)
            wall_fluxes = ResultsParser.compress_solution(wall_fluxes)
        sol.to_csv(os.path.join(run_results_dir, Config.default_log_name('solution', run_id=run_id)))
        rates.to_csv(os.path.join(run_results_dir, Config.default_log_name('rates', run_id=run_id)))
        wall_fluxes.to_csv(os.path.join(run_results_dir, Config.default_log_name('wall_fluxes', run_id=run_id)))
        self.model.chemistry.dump_chemistry_attributes(os.path.join(run_results_dir, Config.default_log_name('chemistry_attributes', run_id=run_id)))
        model_params = dict(self.model.model_params)
        with open(os.path.join(run_results_dir, Config.default_log_name('model_attributes', run_id=run_id)), 'w') as stream:
            yaml.dump(self.numpy_to_builtins({'model_params': model_params, 'initial_params': init_params}), stream=stream)
        self.model.dump_logs(run_results_dir=run_results_dir)

    @spec('G29', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def numpy_to_builtins(value):
        if isinstance(value, dict):
            return {GlobalModel.numpy_to_builtins(key): GlobalModel.numpy_to_builtins(value[key]) for key in value}
        elif isinstance(value, (list, tuple)):
            return type(value)((GlobalModel.numpy_to_builtins(item) for item in value))
        elif isinstance(value, (np.generic, np.ndarray)):
            return value.tolist()
        return value

    @spec('G27', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def check_convergency(solution, model_params, eps=0.1, timewindow=0.1, verbose=False):
        messages = []
        timesteps = solution['t']
        t_end = timesteps.iloc[-1]
        t_end_0 = model_params['t_end']
        if t_end < t_end_0 and (not np.isclose(t_end, t_end_0, rtol=0.05)):
            messages.append('Terminated at t={} (t_end={} not reached!)'.format(t_end, t_end_0))
        delta_t = t_end * timewindow
        values_end = solution.iloc[-1]
        t_start = t_end - delta_t
        values_start = pd.Series([np.interp(t_start, solution['t'], solution[a]) for a in solution.columns], index=solution.columns)
        rel_diff = (values_end - values_start) / (values_end + values_start) * 2
        outputs_to_ignore = {'t'}
        rel_diff = rel_diff.drop(outputs_to_ignore)
        convergency = abs(rel_diff) <= eps
        messages.extend(['The {} value changed by {}% over the last {}% of total time!'.format(output, round(rel_diff[output] * 100, 2), timewindow * 100) for output in rel_diff[~convergency].index])
        if verbose and len(messages):
            print('CONVERGENCY WARNING:')
            print('\n'.join(messages))
        return convergency

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_solution(self):
        self.assert_success()
        return self.model.get_solution()

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_solution_final(self):
        self.assert_success()
        return self.model.get_solution_final()

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_rates(self):
        self.assert_success()
        return self.model.get_rates()

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_rates_final(self):
        self.assert_success()
        return self.model.get_rates_final()

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_wall_fluxes(self):
        self.assert_success()
        return self.model.get_wall_fluxes()

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_wall_fluxes_final(self):
        self.assert_success()
        return self.model.get_wall_fluxes_final()

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def num_species(self):
        return self.model.num_species()

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def num_reactions(self):
        return self.model.num_reactions()
