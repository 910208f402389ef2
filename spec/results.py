"""Reference semantics of pygmo_fwork/results.py.  Parsed, never executed."""
import os
import yaml
import warnings
import pandas as pd
import numpy as np
from matplotlib import pyplot as plt
from pygmo_fwork.config import Config
from pygmo_fwork.pygmol.model_parameters import TypeCheck
from pygmo_fwork.exceptions import ResultsAttributeError, ResultsNotFoundError

@tables('B36')
class ResultsParser(object):
    unit_conversion_factors = {'m-3/s': 1, 'm-3.s-1': 1, 'm-3s-1': 1, 'cm-3/s': 1e-06, 'cm-3.s-1': 1e-06, 'cm-3s-1': 1e-06}

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, nominal_backend=None, nominal_results_dir=None):
        if nominal_backend is None and nominal_results_dir is None:
            nominal_backend = 'pygmol'
        self.nominal_results_dir = self._fetch_results_dir(nominal_backend, nominal_results_dir)

    @spec('B36')
    def _fetch_results_dir(self, backend=None, results_dir=None):
        if backend is None and results_dir is not None:
            return results_dir
        elif backend is not None and results_dir is None:
            return Config().get_results_dir(backend)
        elif backend is None and results_dir is None:
            return self.nominal_results_dir
        else:
            raise ResultsAttributeError('Invalid combination of attributes!')

    @spec('B36')
    def _fetch_run_dir(self, run_id, backend=None, results_dir=None):
        results_dir = self._fetch_results_dir(backend=backend, results_dir=results_dir)
        return os.path.join(results_dir, run_id)

    @spec('B36')
    def _fetch_model_attributes(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
        run_dir = self._fetch_run_dir(run_id, backend, results_dir)
        if attributes_dump_name is None:
            attributes_dump_name = Config.default_log_name('model_attributes', run_id=run_id)
        model_attributes_path = os.path.join(run_dir, attributes_dump_name)
        if not os.path.isfile(model_attributes_path):
            raise ResultsNotFoundError('Model attributes not found in "{}"!'.format(model_attributes_path))
        with open(model_attributes_path) as stream:
            model_attributes = yaml.load(stream=stream, Loader=yaml.FullLoader)
        return model_attributes

    @spec('B36')
    @staticmethod
    def _parse_run_identifiers(run):
        run_identifiers = {'run_id': None, 'backend': None, 'results_dir': None, 'file_name': None}
        if not TypeCheck.is_collection(run):
            run = [run]
        else:
            run = list(run)
        run_identifiers['run_id'] = run.pop(0)
        if not len(run):
            pass
        elif len(run) == 1:
            if run[0].lower() in Config.accepted_backends:
                run_identifiers['backend'] = run[0]
            elif os.path.isdir(run[0]):
                run_identifiers['results_dir'] = run[0]
            else:
                run_identifiers['file_name'] = run[0]
        elif len(run) == 2:
            run_identifiers['file_name'] = run[-1]
            if run[0].lower() in Config.accepted_backends:
                run_identifiers['backend'] = run[0]
            else:
                run_identifiers['results_dir'] = run[0]
        else:
            raise ResultsAttributeError('Invalid run identifiers!')
        return run_identifiers

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    def fetch_solution(self, run_id, backend=None, results_dir=None, file_name=None):
        run_dir = self._fetch_run_dir(run_id, backend, results_dir)
        if file_name is None:
            file_name = Config.default_log_name('solution', run_id=run_id)
        sol_path = os.path.join(run_dir, file_name)
        if not os.path.isfile(sol_path):
            raise ResultsNotFoundError('Solution not found in "{}"!'.format(sol_path))
        solution = pd.read_csv(sol_path, index_col=0)
        return solution

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    def fetch_rates(self, run_id, backend=None, results_dir=None, file_name=None):
        run_dir = self._fetch_run_dir(run_id, backend, results_dir)
        if file_name is None:
            file_name = Config.default_log_name('rates', run_id=run_id)
        rates_path = os.path.join(run_dir, file_name)
        if not os.path.isfile(rates_path):
            raise ResultsNotFoundError('Rates not found in "{}"!'.format(rates_path))
        rates = pd.read_csv(rates_path, index_col=0)
        columns = np.array(rates.columns, dtype=object)
        columns[1:] = np.array(columns[1:], dtype=int)
        rates.columns = columns
        return rates

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    def fetch_wall_fluxes(self, run_id, backend=None, results_dir=None, file_name=None):
        run_dir = self._fetch_run_dir(run_id, backend, results_dir)
        if file_name is None:
            file_name = Config.default_log_name('wall_fluxes', run_id=run_id)
        wall_fluxes_path = os.path.join(run_dir, file_name)
        if not os.path.isfile(wall_fluxes_path):
            raise ResultsNotFoundError('Wall fluxes not found in "{}"!'.format(wall_fluxes_path))
        wall_fluxes = pd.read_csv(wall_fluxes_path, index_col=0)
        return wall_fluxes

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_results_frames(results_df, times):
        for t in times:
            assert results_df['t'].iloc[0] <= t <= results_df['t'].iloc[-1], 'time={} is outside the results_df range'.format(t)
        frames = pd.DataFrame(index=range(len(times)), columns=results_df.columns, dtype=float)
        frames.loc[:, 't'] = times
        ignore_columns = {'t'}
        for col in results_df.columns:
            if col not in ignore_columns:
                vals_at_times = np.interp(times, results_df['t'].astype(float), results_df[col].astype(float))
                frames.loc[:, col] = vals_at_times
        return frames

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    def fetch_model_params(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
        model_attributes = self._fetch_model_attributes(run_id, backend, results_dir, attributes_dump_name)
        return model_attributes['model_params']

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    def fetch_initial_params(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
        model_attributes = self._fetch_model_attributes(run_id, backend, results_dir, attributes_dump_name)
        return model_attributes['initial_params']

    @spec('B36')
    @staticmethod
    def _assert_consistency(sp, chemistry, solution_frame=None, rates_frame=None, wall_fluxes_frame=None):
        chemistry.get_rp(sp)
        if solution_frame is not None:
            assert set(chemistry.get_species_name()) == set(solution_frame.index) - {'t', 'e', 'Te', 'Tg', 'p'}, 'Inconsistency between the passed chemistry and solution!'
        if rates_frame is not None:
            assert set(chemistry.get_reactions().index) == set(rates_frame.index) - {'t'}, 'Inconsistency between the passed chemistry and rates!'
        if wall_fluxes_frame is not None:
            assert set(chemistry.get_species_name()) == set(wall_fluxes_frame.index) - {'t'}, 'Inconsistency between the passed chemistry and wall fluxes!'

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_volumetric_rates(sp, chemistry, rates_frame, annotate=False):
        ResultsParser._assert_consistency(sp=sp, chemistry=chemistry, rates_frame=rates_frame)
        sp_id = chemistry.get_rp(sp).id
        stoichiomatrix = chemistry.get_stoichiomatrix(disabled=False, special=True, method='net')
        stoichiovector = stoichiomatrix.loc[stoichiomatrix[sp_id] != 0, sp_id]
        volumetric_rates = stoichiovector * rates_frame.loc[stoichiovector.index]
        volumetric_rates = volumetric_rates.sort_values(ascending=False)
        if annotate:
            volumetric_rates.index = ['{: <10}{}'.format('R{}'.format(r_id), chemistry.get_reaction(r_id)) for r_id in volumetric_rates.index]
        return volumetric_rates

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_surface_rates(sp, chemistry, model_params, wall_fluxes_frame, annotate=False):
        ResultsParser._assert_consistency(sp=sp, chemistry=chemistry, wall_fluxes_frame=wall_fluxes_frame)
        if chemistry.get_rp(sp).is_special():
            warnings.warn('Surface rates not defined for the species {}!'.format(sp))
            return pd.Series(dtype=np.float64)
        sp_id = chemistry.get_rp(sp).id
        ret_matrix = chemistry.get_return_matrix(disabled=False, special=False)
        area = 2 * np.pi * model_params['radius'] * (model_params['radius'] + model_params['length'])
        volume = np.pi * model_params['radius'] ** 2 * model_params['length']
        wall_fluxes_frame = wall_fluxes_frame.copy()
        if 't' in wall_fluxes_frame.index:
            wall_fluxes_frame = wall_fluxes_frame.drop('t')
        wall_fluxes_frame.index = [chemistry.get_rp(sp).id for sp in wall_fluxes_frame.index]
        assert list(wall_fluxes_frame.index) == list(ret_matrix.index) == list(ret_matrix.columns), 'Inconsistent return matrix and wall fluxes frame!'
        sticking_rates = wall_fluxes_frame[ret_matrix.index] * area / volume
        return_rates = -ret_matrix.multiply(sticking_rates, axis='columns')
        surface_rates_matrix = pd.DataFrame(np.diag(sticking_rates), columns=sticking_rates.index, index=sticking_rates.index) + return_rates
        surface_rates = surface_rates_matrix.loc[sp_id]
        surface_rates = surface_rates[surface_rates != 0]
        if annotate:
            new_index = []
            sp_names = chemistry.get_species_name()
            for i in surface_rates.index:
                if i == sp_id:
                    r_string = '{} + wall > wall'.format(sp)
                else:
                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp)
                new_index.append('{: <10}{}'.format('S{}'.format(i), r_string))
            surface_rates.index = new_index
        return surface_rates

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def print_production_processes(sp, chemistry, model_params, rates_frame, wall_fluxes_frame, n=None, unit='m-3/s'):
        volumetric_rates = ResultsParser.get_volumetric_rates(sp=sp, chemistry=chemistry, rates_frame=rates_frame, annotate=True)
        surface_rates = ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params, wall_fluxes_frame=wall_fluxes_frame, annotate=True)
        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
        production_rates = all_rates[all_rates > 0]
        if n is None:
            n = len(production_rates)
        print('\nProcesses and rates of production for {} [{}]:'.format(sp, unit))
        series_to_print = production_rates.sort_values(ascending=False).iloc[:n] * ResultsParser.unit_conversion_factors[unit]
        print(series_to_print.to_string())
        if n < len(production_rates):
            print('{: ^50}'.format('...'))
        print()

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def print_consumption_processes(sp, chemistry, model_params, rates_frame, wall_fluxes_frame, n=None, unit='m-3/s'):
        volumetric_rates = ResultsParser.get_volumetric_rates(sp=sp, chemistry=chemistry, rates_frame=rates_frame, annotate=True)
        surface_rates = ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params, wall_fluxes_frame=wall_fluxes_frame, annotate=True)
        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
        consumption_rates = all_rates[all_rates < 0]
        if n is None:
            n = len(consumption_rates)
        print('\nProcesses and rates of consumption for {} [{}]:'.format(sp, unit))
        series_to_print = consumption_rates.sort_values(ascending=True).iloc[:n] * ResultsParser.unit_conversion_factors[unit]
        print(series_to_print.to_string())
        if n < len(consumption_rates):
            print('{: ^50}'.format('...'))
        print()

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def compress_solution(full_sol, diff_threshold=0.05, min_timestep=0.001):
        drop_index = set([])
        min_step_abs = full_sol['t'].iloc[-1] * min_timestep
        front_index = 0
        while True:
            if front_index >= len(full_sol.index) - 1:
                break
            next_index = front_index + 1
            while True:
                if next_index >= len(full_sol.index) - 1:
                    break
                diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
                rel_diff = diff / full_sol.loc[front_index]
                if diff['t'] < min_step_abs:
                    drop_index.add(next_index)
                    next_index += 1
                elif (rel_diff < diff_threshold).drop('t').all():
                    drop_index.add(next_index)
                    next_index += 1
                else:
                    break
            front_index = next_index
        compressed_sol = full_sol.drop(drop_index, axis=0)
        return compressed_sol

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    def plot_solution(self, run_id, *to_plot, backend=None, results_dir=None, file_name=None, log=True):
        sol = self.fetch_solution(run_id, backend=backend, results_dir=results_dir, file_name=file_name)
        if not len(to_plot):
            to_plot = list(sol.columns)[1:-4]
        for param in to_plot:
            plt.plot(sol['t'], sol[param], label='{}'.format(param))
        plt.xlabel('Time (s)')
        if len({'p', 'Te', 'Tg'}.intersection(set(to_plot))):
            ylabel = '$n$ (m$^{-3}$), $p$ (Pa), $T_{\\mathrm{e}}$ (eV), $T$ (K)'
        else:
            ylabel = 'Particle Density (m$^{-3}$)'
        plt.ylabel(ylabel)
        if log:
            plt.yscale('log')
        plt.legend()
        plt.grid()
        plt.show()

    @spec('B36', aspects='returns raises signature fields effects', fields='*')
    def compare(self, runs, relative_to_first=False, printout=True):
        final_solutions = []
        for run in runs:
            run_identifiers = self._parse_run_identifiers(run)
            solution = self.fetch_solution(**run_identifiers)
            run_id = run_identifiers['run_id']
            if run_identifiers['backend'] is not None:
                parent_dir = run_identifiers['backend']
            elif run_identifiers['results_dir'] is not None:
                parent_dir = os.path.split(run_identifiers['results_dir'])[-1]
            else:
                parent_dir = os.path.split(self.nominal_results_dir)[-1]
            sol_name = os.path.join('...{}'.format(parent_dir), run_id)
            if len(sol_name) > 40:
                sol_name = '...{}'.format(sol_name[-40:])
            final_solution = pd.Series(solution.iloc[-1], name=sol_name)
            final_solutions.append(final_solution)
        comp_df = pd.DataFrame(final_solutions)
        if relative_to_first:
            comp_df = (comp_df - comp_df.iloc[0]) / comp_df.iloc[0] * 100.0
        if printout:
            print()
            format_str = '{:.2E}' if not relative_to_first else '{:.2f}'
            with pd.option_context('display.float_format', format_str.format):
                print(comp_df)
            print()
        return comp_df
