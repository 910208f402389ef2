"""Reference semantics of pygmo_fwork/optichem/morris.py.  Parsed, never executed."""
import glob
import multiprocessing
import os
import time
from collections import namedtuple
from numbers import Number
from typing import Union, Sequence, Tuple, Dict
import numpy as np
import pandas as pd
import yaml
from plaschem.chemistry import Chemistry
from plaschem.species import RP
from pygmo_fwork.config import Config
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.optichem.exceptions import MorrisTrajectoryError, MorrisInputsError, MorrisLogError, MorrisCoherenceError
from pygmo_fwork.pygmol.model_parameters import ModelParameters
from pygmo_fwork.results import ResultsParser

@tables('O34')
class MorrisMethod(object):
    meta_dir_name = 'meta'
    traj_id = 'traj{:03d}'
    logs_dir_name = 'logs'
    logs_traj_dir_name = '{}'

    @spec('O34', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry, model_parameters, model_backend='pygmol'):
        self.chemistry = chemistry
        self.model_params = model_parameters
        self.model_backend = model_backend
        self.delta_magnitude = 0.5
        self.grid_density = 10
        self.grid = 1.0 / self.grid_density / 2 + np.arange(0.0, 1.0, 1.0 / self.grid_density)
        self.grid = np.round(self.grid, decimals=5)
        if self.delta_magnitude <= 0:
            raise MorrisInputsError('Delta needs to be a positive number!')
        if self.grid_density <= 0:
            raise MorrisInputsError('Density needs to be a positive number!')
        if not ((self.grid + self.delta_magnitude < 1.0) + (self.grid - self.delta_magnitude > 0.0)).all():
            raise MorrisInputsError('Delta is too large to stay in the unit hypercube at all time!')
        if not round(self.delta_magnitude / (1.0 / self.grid_density), 10) == int(round(self.delta_magnitude / (1.0 / self.grid_density), 10)):
            raise MorrisInputsError('Delta {} needs to be dividable by the grid cell size {}!'.format(self.delta_magnitude, 1.0 / self.grid_density))
        self.morris_run_dir = None
        self.meta_dir = None
        self.logs_dir = None
        self.logs_traj_dir = None
        self.debug = False

    @spec('O34')
    def _get_seed_x(self, x_cont):
        seed_x = np.empty(len(x_cont))
        for i, val in enumerate(x_cont):
            deltas = abs(self.grid - val)
            min_delta = min(deltas)
            mask = deltas == min_delta
            seed_x[i] = self.grid[mask][0]
        return seed_x

    @spec('O34')
    def _get_seed_x_random(self, num_factors):
        return np.random.choice(self.grid, size=num_factors, replace=True)

    @spec('O34')
    def _trajectory(self, seed_x):
        seed_x = np.array(seed_x)
        min_dim = 2
        if len(seed_x) < min_dim:
            raise MorrisInputsError('The vector of factors needs to be at least {}D!'.format(min_dim))
        for val in seed_x:
            if val not in self.grid:
                raise MorrisInputsError('The vector of factors needs to be at least {}D!'.format(min_dim))
        x = seed_x
        num_factors = len(x)
        for i in np.random.permutation(np.arange(num_factors)):
            x = x.copy()
            for delta in np.round(np.random.permutation([-self.delta_magnitude, self.delta_magnitude]), decimals=5):
                if 0.0 < x[i] + delta < 1.0:
                    x[i] = np.round(x[i] + delta, decimals=5)
                    yield (i, delta, x)
                    break
            else:
                raise MorrisTrajectoryError('Vector of factors outside a unit hypercube! Should never happen!')

    @spec('O34')
    @staticmethod
    def _map_reactions_factors_to_k(x, nominal_k):
        allowed_types = (np.ndarray, pd.core.series.Series)
        for argument in [x, nominal_k]:
            if not isinstance(argument, allowed_types):
                raise TypeError('Arguments to this method need to be either np.array, or pd.Series!')
        if not len(x) == len(nominal_k):
            raise MorrisInputsError('Cannot map vector of factors X to the vector of nominal arrh_a values!')
        if hasattr(x, 'index') and hasattr(nominal_k, 'index'):
            if list(x.index) != list(nominal_k.index):
                raise MorrisInputsError('Mismatching index of x vector and values vector!')
        return 2 * nominal_k * x

    @spec('O34')
    def _map_species_factors_to_k(self, x, nominal_k, chemistry):
        assert chemistry is not self.chemistry
        stoichiomatrix_lhs = chemistry.get_stoichiomatrix(method='lhs')
        stoichiomatrix_rhs = chemistry.get_stoichiomatrix(method='rhs')
        involvement_matrix = pd.DataFrame(stoichiomatrix_lhs + stoichiomatrix_rhs, dtype='?')
        allowed_types = (np.ndarray, pd.core.series.Series)
        for argument in [x, nominal_k]:
            if not isinstance(argument, allowed_types):
                raise TypeError('Arguments to this method need to be either np.array, or pd.Series!')
        if hasattr(x, 'index') and list(x.index) != list(involvement_matrix.columns):
            raise MorrisInputsError('Mismatching index of x vector and chemistry species!')
        if hasattr(nominal_k, 'index') and list(nominal_k.index) != list(involvement_matrix.index):
            raise MorrisInputsError('Mismatching index of x vector and chemistry reactions!')
        if not len(x) == chemistry.num_species():
            raise MorrisInputsError('Cannot map vector of factors X to the vector of nominal arrh_a values!')
        if not len(nominal_k) == chemistry.num_reactions():
            raise MorrisInputsError('Cannot map vector of factors X to the vector of nominal arrh_a values!')
        new_k = nominal_k.copy()
        for i, sp_id in enumerate(involvement_matrix.columns):
            new_k[involvement_matrix[sp_id]] *= 2 * np.array(x)[i]
        return new_k

    @spec('O34')
    def _map_a_factor_to_ret_coef(self, x_i: float, stuck_sp: Union[str, int, RP], ret_sp: Union[str, int, RP], nominal_ret_coef: float, chemistry: Chemistry, rel_range: float) -> Dict[str, Dict[str, float]]:
        assert chemistry is not self.chemistry
        if rel_range <= 1.0:
            raise MorrisInputsError('The relative range parameter needs to be more than 1.0!')
        stuck_species: RP = chemistry.get_rp(stuck_sp)
        return_species: RP = chemistry.get_rp(ret_sp)
        if stuck_species.is_special() or return_species.is_special():
            raise MorrisInputsError('Coefficients for special species cannot be Morris factors!')
        if not nominal_ret_coef > 0:
            raise MorrisInputsError('Only defined return coefficients can be Morris factors!')
        if stuck_species.id == return_species.id:
            raise MorrisInputsError('Return coefficient of itself cannot be a Morris factor!')
        stick_coef: float = chemistry.get_species_stick_coef()[stuck_species.id]
        ret_matrix: pd.DataFrame = chemistry.get_return_matrix()
        original_ret_coef: float = ret_matrix.at[return_species.id, stuck_species.id]
        original_ret_coef_self: float = ret_matrix.at[stuck_species.id, stuck_species.id]
        assert 0 <= x_i <= 1, 'Unexpected value of the X_i Morris factor!'
        exponent: float = 2 * x_i - 1
        new_ret_coef: float = nominal_ret_coef * rel_range ** exponent
        if not stick_coef > 0:
            raise MorrisInputsError('Only return coefficients for species which GET STUCK can be Morris factors!')
        d_ret_coef: float = new_ret_coef - original_ret_coef
        new_ret_coef_self: float = original_ret_coef_self - d_ret_coef
        if new_ret_coef_self < 0:
            raise MorrisInputsError('The return coefficient cannot be changed by that much while preserving the number of returned particles! Try lowering the rel_range!')
        new_ret_coefs: dict = chemistry.get_species_ret_coefs()[stuck_species.id]
        new_ret_coefs.update({return_species.get_name(): new_ret_coef, stuck_species.get_name(): new_ret_coef_self})
        chemistry.set_adhoc_species_attributes('ret_coefs', stuck_species, new_ret_coefs)
        return {stuck_species.get_name(): {return_species.get_name(): new_ret_coef, stuck_species.get_name(): new_ret_coef_self}}

    @spec('O34')
    @staticmethod
    def _map_factors_to_model_params(x, model_param_ranges):
        raise NotImplementedError

    @spec('O34')
    def _prepare_logging(self, morris_run_id, morris_results_dir=None, traj_id=None):
        if morris_results_dir is None:
            morris_results_dir = Config().get_morris_results_dir()
        self.morris_run_dir = os.path.join(morris_results_dir, morris_run_id)
        self.meta_dir = os.path.join(self.morris_run_dir, self.meta_dir_name)
        self.logs_dir = os.path.join(self.morris_run_dir, self.logs_dir_name)
        if traj_id is None:
            traj_id = self._get_next_traj_id(self.logs_dir)
        self.logs_traj_dir = os.path.join(self.logs_dir, self.logs_traj_dir_name.format(traj_id))
        meta_path = os.path.join(self.logs_traj_dir, 'meta.yaml')
        if os.path.isfile(meta_path):
            raise MorrisLogError('Trajectory directory already exists: {}'.format(meta_path))
        for path in [self.morris_run_dir, self.meta_dir, self.logs_dir, self.logs_traj_dir]:
            if not os.path.isdir(path):
                os.mkdir(path)

    @spec('O34')
    def _get_next_traj_id(self, logs_dir):
        for i in range(1, 999):
            traj_id = self.traj_id.format(i)
            if not os.path.isfile(os.path.join(logs_dir, traj_id, 'meta.yaml')):
                return traj_id
        else:
            raise MorrisLogError('Could not find a suitable trajectory id!')

    @spec('O34')
    def _assert_coherence(self, meta_dir, traj_type):
        if len(os.listdir(meta_dir)):
            if not self.chemistry.check_coherence(os.path.join(meta_dir, 'chemistry_attributes.yaml')):
                raise MorrisCoherenceError('Chemistry is not coherent with previous morris trajectories for this Morris Run ID')
            with open(os.path.join(meta_dir, 'model_parameters.yaml')) as stream:
                meta_model_params = dict(ModelParameters(yaml.load(stream, Loader=yaml.FullLoader)))
                if not meta_model_params == dict(ModelParameters(self.model_params)):
                    raise MorrisCoherenceError('Model parameters are not coherent with previous morris trajectories for this Morris Run ID')
            with open(os.path.join(meta_dir, 'meta.yaml')) as stream:
                meta_meta = yaml.load(stream, Loader=yaml.FullLoader)
                if not meta_meta['trajectory_type'] == traj_type:
                    raise MorrisCoherenceError('Trajectory type is not coherent with previous morris trajectories for this Morris Run ID')
                if not meta_meta['model_backend'] == self.model_backend.lower():
                    raise MorrisCoherenceError('Model backend is not coherent with previous morris trajectories for this Morris Run ID')

    @spec('O34')
    def _dump_meta(self, meta_dir, traj_type):
        self.chemistry.dump_chemistry_attributes(os.path.join(meta_dir, 'chemistry_attributes.yaml'))
        model_params = dict(ModelParameters(self.model_params))
        with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
            yaml.dump(GlobalModel.numpy_to_builtins(model_params), stream)
        with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
            yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)

    @spec('O34')
    @staticmethod
    def _log_solution(solution, run_id, logs_traj_dir, compress):
        run_dir = os.path.join(logs_traj_dir, run_id)
        os.mkdir(run_dir)
        if compress:
            solution = ResultsParser.compress_solution(solution, diff_threshold=0.05, min_timestep=0.001)
        solution.to_csv(os.path.join(run_dir, 'solution.csv'))

    @spec('O34', aspects='returns raises signature fields effects', fields='*')
    def run_trajectory(self, morris_run_id, traj_type, morris_results_dir=None, traj_id=None, full_log=False, verbosity=2, random_seed=None, compress_solution=True, ret_species: Union[None, Sequence[Tuple[str, str]]]=None, rel_ranges: Union[None, float, Sequence[float]]=None) -> None:
        chemistry = self.chemistry.copy()
        model_params = dict(self.model_params)
        model = GlobalModel(chemistry, model_params, backend=self.model_backend)
        if traj_type == 'return_coefficients':
            assert ret_species is not None
            assert len(ret_species) == len(set(ret_species))
            assert rel_ranges is not None
            if not isinstance(rel_ranges, Sequence):
                assert isinstance(rel_ranges, Number)
                rel_ranges = len(ret_species) * [rel_ranges]
        else:
            assert ret_species is None
            assert rel_ranges is None
        np.random.seed(random_seed)
        self._prepare_logging(morris_run_id, morris_results_dir, traj_id)
        self._assert_coherence(self.meta_dir, traj_type=traj_type)
        if verbosity >= 1:
            msg = 'MORRIS RUN "{}": TRAJECTORY "{}" STARTED '.format(morris_run_id, os.path.split(self.logs_traj_dir)[-1])
            print('{:.<100}'.format(msg))
        if traj_type == 'species':
            factors_dimension = model.num_species()
        elif traj_type == 'reactions':
            factors_dimension = model.num_reactions()
        elif traj_type == 'return_coefficients':
            factors_dimension = len(ret_species)
        elif traj_type == 'model_params':
            raise NotImplementedError
        else:
            raise ValueError('Trajectory type {} not recognised!'.format(traj_type))
        meta_dict = {}
        traj_data = pd.DataFrame(dtype='object')
        x0 = self._get_seed_x_random(factors_dimension)
        if traj_type == 'species':
            nominal_values = chemistry.get_reactions_arrh_a(si_units=False).copy()
            values_ids = np.array(nominal_values.index)
            factors_ids = np.array(chemistry.get_species_name())
            arrh_a0 = self._map_species_factors_to_k(x0, nominal_values, chemistry)
            for r_id in values_ids:
                chemistry.set_adhoc_reactions_attributes('arrh_a', r_id, float(arrh_a0[r_id]))
        elif traj_type == 'reactions':
            nominal_values = chemistry.get_reactions_arrh_a(si_units=False).copy()
            values_ids = np.array(nominal_values.index)
            factors_ids = values_ids
            arrh_a0 = self._map_reactions_factors_to_k(x0, nominal_values)
            for r_id in values_ids:
                chemistry.set_adhoc_reactions_attributes('arrh_a', r_id, float(arrh_a0[r_id]))
        elif traj_type == 'return_coefficients':
            ret_matrix: pd.DataFrame = chemistry.get_return_matrix()
            if self.debug:
                for stuck_sp_id in ret_matrix.columns:
                    if chemistry.get_species_stick_coef()[stuck_sp_id] > 0:
                        for ret_sp_id in ret_matrix.index:
                            nominal_value = ret_matrix.at[ret_sp_id, stuck_sp_id]
                            if nominal_value > 0 or ret_sp_id == stuck_sp_id:
                                col_label = f'r_{ret_sp_id}_{stuck_sp_id}'
                                traj_data.at['stuck species', col_label] = chemistry.get_rp(stuck_sp_id).get_name()
                                traj_data.at['returned species', col_label] = chemistry.get_rp(ret_sp_id).get_name()
                                traj_data.at['nominal values', col_label] = nominal_value
            original_total_returned = ret_matrix.sum(axis=0).values.copy()
            factors_ids = [f'r({s}>{r})' for s, r in ret_species]
            nominal_values = []
            values_ids = None
            for (stuck_sp, ret_sp), x_i, rel_range in zip(ret_species, x0, rel_ranges):
                stuck_rp: RP = chemistry.get_rp(stuck_sp)
                ret_rp: RP = chemistry.get_rp(ret_sp)
                nominal_ret_coef: float = ret_matrix.at[ret_rp.id, stuck_rp.id]
                nominal_values.append(nominal_ret_coef)
                self._map_a_factor_to_ret_coef(x_i, stuck_sp, ret_sp, nominal_ret_coef, chemistry, rel_range)
            new_ret_matrix: pd.DataFrame = chemistry.get_return_matrix()
            new_total_returned = new_ret_matrix.sum(axis=0).values.copy()
            assert np.isclose(original_total_returned, new_total_returned, rtol=1e-10).all(), f'\n{original_total_returned}\n!=\n{new_total_returned}'
            if self.debug:
                for (stuck_sp, ret_sp), x_i in zip(ret_species, x0):
                    stuck_rp: RP = chemistry.get_rp(stuck_sp)
                    ret_rp: RP = chemistry.get_rp(ret_sp)
                    col_label = f'r_{ret_rp.id}_{stuck_rp.id}'
                    traj_data.at['base X', col_label] = x_i
                row_label = 'base r'
                for stuck_sp_id in new_ret_matrix.columns:
                    if chemistry.get_species_stick_coef()[stuck_sp_id] > 0:
                        for ret_sp_id in new_ret_matrix.index:
                            new_value = new_ret_matrix.at[ret_sp_id, stuck_sp_id]
                            if new_value > 0 or ret_sp_id == stuck_sp_id:
                                col_label = f'r_{ret_sp_id}_{stuck_sp_id}'
                                assert col_label in traj_data.columns
                                traj_data.at[row_label, col_label] = new_value
        elif traj_type == 'model_params':
            raise NotImplementedError
        else:
            raise ValueError('Trajectory type {} not recognised!'.format(traj_type))
        factors_vectors = self._trajectory(seed_x=x0)
        if verbosity >= 2:
            print('{}\t..::: EVALUATING MODEL WITH INITIAL FACTORS :::..'.format(time.strftime('%H:%M:%S')))
        run_id = '{:0{}d}_initial_run'.format(0, len(str(factors_dimension)))
        model.run(verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir, run_id=run_id)
        if not full_log:
            self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
        meta_dict['base_run_id'] = run_id
        traj_run_ids = []
        traj_deltas = []
        traj_factors_ids = []
        for j, (i, delta, x) in enumerate(factors_vectors):
            factor_id = factors_ids[i]
            if traj_type == 'species':
                arrh_a = self._map_species_factors_to_k(x, nominal_values, chemistry)
                for r_id in values_ids:
                    chemistry.set_adhoc_reactions_attributes('arrh_a', r_id, float(arrh_a[r_id]))
            elif traj_type == 'reactions':
                arrh_a = self._map_reactions_factors_to_k(x, nominal_values)
                for r_id in values_ids:
                    chemistry.set_adhoc_reactions_attributes('arrh_a', r_id, float(arrh_a[r_id]))
            elif traj_type == 'return_coefficients':
                x_i: float = x[i]
                nominal_ret_coef: float = nominal_values[i]
                stuck_sp, ret_sp = ret_species[i]
                stuck_rp: RP = chemistry.get_rp(stuck_sp)
                total_returned: float = sum(chemistry.get_species_ret_coefs()[stuck_rp.id].values())
                rel_range = rel_ranges[i]
                self._map_a_factor_to_ret_coef(x_i, stuck_sp, ret_sp, nominal_ret_coef, chemistry, rel_range)
                assert np.isclose(total_returned, sum(chemistry.get_species_ret_coefs()[stuck_rp.id].values()), rtol=1e-10)
                if self.debug:
                    new_ret_matrix: pd.DataFrame = chemistry.get_return_matrix()
                    row_label = f'X (step {j + 1})'
                    for (stuck_sp, ret_sp), x_i in zip(ret_species, x):
                        stuck_rp: RP = chemistry.get_rp(stuck_sp)
                        ret_rp: RP = chemistry.get_rp(ret_sp)
                        col_label = f'r_{ret_rp.id}_{stuck_rp.id}'
                        traj_data.at[row_label, col_label] = x_i
                    row_label = f'r (step {j + 1})'
                    for stuck_sp_id in new_ret_matrix.columns:
                        if chemistry.get_species_stick_coef()[stuck_sp_id] > 0:
                            for ret_sp_id in new_ret_matrix.index:
                                new_value = new_ret_matrix.at[ret_sp_id, stuck_sp_id]
                                if new_value > 0 or ret_sp_id == stuck_sp_id:
                                    col_label = f'r_{ret_sp_id}_{stuck_sp_id}'
                                    assert col_label in traj_data.columns
                                    traj_data.at[row_label, col_label] = new_value
            elif traj_type == 'model_params':
                raise NotImplementedError
            else:
                raise ValueError('Trajectory type {} not recognised!'.format(traj_type))
            if verbosity >= 2:
                print('{}\t..::: EVALUATING ELEMENTARY EFFECT OF {} ({}/{}) :::..'.format(time.strftime('%H:%M:%S'), factor_id, j + 1, factors_dimension))
            run_id = '{:0{}d}_elem_effect_of_{}'.format(j + 1, len(str(factors_dimension)), factor_id)
            model.run(verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir, run_id=run_id)
            if not full_log:
                self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
            traj_run_ids.append(run_id)
            traj_deltas.append(float(delta))
            logged_factor_id = str(factor_id)
            if logged_factor_id.isnumeric():
                logged_factor_id = int(logged_factor_id)
            traj_factors_ids.append(logged_factor_id)
        meta_dict['run_ids'] = traj_run_ids
        meta_dict['deltas'] = traj_deltas
        meta_dict['factors_ids'] = traj_factors_ids
        with open(os.path.join(self.logs_traj_dir, 'meta.yaml'), 'w') as stream:
            yaml.dump(meta_dict, stream)
        self._dump_meta(self.meta_dir, traj_type=traj_type)
        if verbosity >= 1:
            msg = ' MORRIS RUN "{}": TRAJECTORY "{}" FINISHED'.format(morris_run_id, os.path.split(self.logs_traj_dir)[-1])
            print('{:.>100}'.format(msg))
        if self.debug:
            cols_to_drop = []
            for col in traj_data.columns:
                if len(set(traj_data[col].iloc[4:len(traj_data[col]) + 1:2])) == 1:
                    if traj_data[col].iloc[3:len(traj_data[col]) + 1:2].isnull().all():
                        cols_to_drop.append(col)
            traj_data = traj_data.drop(columns=cols_to_drop)
            for col in traj_data.columns:
                for i in range(1, 2 * factors_dimension + 1, 2):
                    if traj_data[col].iloc[-i] == traj_data[col].iloc[-i - 2]:
                        traj_data[col].iloc[-i] = np.nan
                for i in range(2, 2 * factors_dimension + 1, 2):
                    if not np.isnan(traj_data[col].iloc[-i]):
                        if traj_data[col].iloc[-i] == traj_data[col].iloc[-i - 2]:
                            traj_data[col].iloc[-i] = np.nan
            traj_data = traj_data.fillna('')
            with pd.option_context('display.max_rows', None, 'display.max_columns', None, 'display.width', None):
                print(traj_data)

    @spec('O34', aspects='returns raises signature fields effects', fields='*')
    def run_morris(self, morris_run_id, traj_type, num_trajs, num_cores=None, **kwargs):
        if 'traj_id' in kwargs:
            raise ValueError('Cannot specify traj_id for parallel batch of trajectories!')
        if traj_type == 'return_coefficients':
            if 'ret_species' not in kwargs or 'rel_ranges' not in kwargs:
                raise ValueError('"ret_species" and "rel_ranges" keyword arguments need to be passed (to be forwarded to the self.run_trajectory method)!')
        morris_results_dir = None
        if 'morris_results_dir' in kwargs:
            morris_results_dir = kwargs['morris_results_dir']
        self._prepare_logging(morris_run_id, morris_results_dir=morris_results_dir)
        traj_ids = []
        i = 1
        while len(traj_ids) < num_trajs:
            traj_id = self.traj_id.format(i)
            if not os.path.isfile(os.path.join(self.logs_dir, traj_id, 'meta.yaml')):
                traj_ids.append(traj_id)
            i += 1
        kwds_q = []
        for traj_id in traj_ids:
            kwds = {'traj_id': traj_id, 'verbosity': 1}
            kwds.update(kwargs)
            kwds_q.append(kwds)
        if num_cores is None:
            num_cores = multiprocessing.cpu_count() - 1
        pool = multiprocessing.Pool(num_cores)
        results = []
        for kwds in kwds_q:
            results.append(pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds))
        pool.close()
        pool.join()
        for result in results:
            result.get()

    @spec('O34', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def evaluate_trajectory(traj_dir, times):
        rp = ResultsParser()
        with open(os.path.join(traj_dir, 'meta.yaml')) as stream:
            meta_dict = yaml.load(stream, Loader=yaml.FullLoader)
        base_run_id = meta_dict['base_run_id']
        run_ids, factors_ids = (meta_dict['run_ids'], meta_dict['factors_ids'])
        deltas = np.array(meta_dict['deltas'])
        base_sol = rp.fetch_solution(base_run_id, results_dir=traj_dir)
        base_frames = rp.get_results_frames(base_sol, times)
        traj_frames = [base_frames.values]
        for run_id in run_ids:
            sol = rp.fetch_solution(run_id, results_dir=traj_dir)
            frames = rp.get_results_frames(sol, times)
            traj_frames.append(frames.values)
        traj_frames = np.moveaxis(np.array(traj_frames), 1, 0)
        elementary_effects_times = (traj_frames[:, 1:, :] - traj_frames[:, :-1, :]) / deltas[np.newaxis, :, np.newaxis]
        elementary_effects_list = []
        mean_outputs_times = traj_frames.mean(axis=1)
        mean_outputs_list = []
        TrajectoryStats = namedtuple('TrajectoryStats', 'times elementary_effects mean_outputs')
        for elementary_effects in elementary_effects_times:
            elem_effects_df = pd.DataFrame(elementary_effects, columns=base_sol.columns, index=factors_ids)
            elementary_effects_list.append(elem_effects_df)
        for mean_outputs in mean_outputs_times:
            mean_outputs_series = pd.Series(mean_outputs, index=base_sol.columns)
            mean_outputs_list.append(mean_outputs_series)
        trajectory_stats = TrajectoryStats(tuple(times), tuple(elementary_effects_list), tuple(mean_outputs_list))
        return trajectory_stats

    @spec('O34', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_morris_stats(morris_run_id=None, logs_dir=None, times=None):
        if morris_run_id is None and logs_dir is None or (morris_run_id is not None and logs_dir is not None):
            raise ValueError('Exactly one of morris_run_id or trajs_dir arguments must be passed!')
        if times is None:
            raise ValueError('Times array needs to be specified!')
        if logs_dir is None:
            morris_results_dir = Config().get_morris_results_dir()
            logs_dir = os.path.join(morris_results_dir, str(morris_run_id), MorrisMethod.logs_dir_name)
        traj_dirs_paths = list(glob.glob(os.path.join(logs_dir, '*')))
        traj_dirs_paths.sort()
        trajectories_stats = []
        for traj_dir in traj_dirs_paths:
            trajectories_stats.append(MorrisMethod.evaluate_trajectory(traj_dir, times))
        MorrisStats = namedtuple('MorrisStats', 'times mean_outputs mu sigma mu_rel sigma_rel')
        ms_times = times
        ms_mean_outputs = []
        ms_mu = []
        ms_sigma = []
        ms_mu_rel = []
        ms_sigma_rel = []
        for i in range(len(times)):
            mean_outputs_single_time = []
            for ts in trajectories_stats:
                mean_outputs_single_time.append(ts.mean_outputs[i])
            mean_outputs_single_time_df = pd.DataFrame(mean_outputs_single_time)
            mean_outputs_single_time_mean = mean_outputs_single_time_df.mean(axis=0)
            ms_mean_outputs.append(mean_outputs_single_time_mean)
        for i in range(len(times)):
            elem_effects_dataframes = [ts.elementary_effects[i] for ts in trajectories_stats]
            elem_effects_concat = pd.concat(elem_effects_dataframes)
            mu_single_time = elem_effects_concat.groupby(elem_effects_concat.index).mean()
            sigma_single_time = elem_effects_concat.groupby(elem_effects_concat.index).std()
            ms_mu.append(mu_single_time)
            ms_sigma.append(sigma_single_time)
            mu_rel_single_time = mu_single_time / ms_mean_outputs[i]
            sigma_rel_single_time = sigma_single_time / ms_mean_outputs[i]
            ms_mu_rel.append(mu_rel_single_time)
            ms_sigma_rel.append(sigma_rel_single_time)
        morris_stats = MorrisStats(times=tuple(ms_times), mean_outputs=tuple(ms_mean_outputs), mu=tuple(ms_mu), sigma=tuple(ms_sigma), mu_rel=tuple(ms_mu_rel), sigma_rel=tuple(ms_sigma_rel))
        return morris_stats

    @spec('O34', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_ranking(important_outputs, important_times, morris_run_id=None, logs_dir=None, method='max'):
        morris_stats = MorrisMethod.get_morris_stats(morris_run_id=morris_run_id, logs_dir=logs_dir, times=important_times)
        if not set(important_outputs).issubset(set(morris_stats.mean_outputs[0].index)):
            raise ValueError('Some of the passed outputs of interest are not among the model outputs!')
        if method == 'mean':
            scores = pd.Series(index=morris_stats.mu[0].index, dtype='float64').fillna(0)
            for i in range(len(important_times)):
                scores += abs(morris_stats.mu_rel[i])[important_outputs].sum(axis=1)
                scores += morris_stats.sigma_rel[i][important_outputs].sum(axis=1)
            scores /= len(important_times)
            scores /= len(important_outputs)
        elif method == 'max':
            scores = pd.DataFrame(columns=morris_stats.mu[0].index)
            for i in range(len(important_times)):
                scores_for_time = abs(morris_stats.mu_rel[i])[important_outputs].max(axis=1) + morris_stats.sigma_rel[i][important_outputs].max(axis=1)
                scores.loc[i, :] = scores_for_time
            scores = scores.max(axis=0)
        else:
            raise ValueError('The method argument must be either "mean" or "max"!')
        return scores.sort_values(ascending=True)
