"""Reference semantics of pygmo_fwork/optichem/reduction.py.  Parsed, never executed."""
import os
from typing import List, Union, Callable
import numpy as np
import pandas as pd
import yaml
from matplotlib import pyplot as plt
from plaschem.chemistry import ChemistryDisableError
from pygmo_fwork.config import Config
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.optichem.errors import SolutionsDiff
from pygmo_fwork.optichem.exceptions import ReductionInitError, ReductionRunError
from pygmo_fwork.pygmol.exceptions import ModelSolutionError
from pygmo_fwork.results import ResultsParser

@tables('O31')
class ReductionIterator(object):
    base_run_id = '{:02d}_full_chemistry'.format(0)
    model_run_id = '{:02d}_disabled_{}'
    reduction_history_filename = 'reduction_history.csv'
    meta_filename = 'meta.yaml'

    @spec('O31', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, model: GlobalModel, reduction_run_id: str, important_outputs: List[str], important_times: List[float], max_error: float, reduction_results_dir: str=None, verbose_level: int=2):
        self.model = model
        self.reduction_run_id = str(reduction_run_id)
        self.important_outputs = [str(io) for io in important_outputs]
        self.important_times = [float(round(it, 10)) for it in important_times]
        self.max_error = max_error
        self.meta = {'important_outputs': self.important_outputs, 'important_times': self.important_times, 'max_error': self.max_error}
        if reduction_results_dir is None:
            reduction_results_dir = Config().get_reduction_results_dir()
        self.reduction_results_dir = reduction_results_dir
        self.verbose_level = verbose_level
        self.reduction_run_dir = os.path.join(self.reduction_results_dir, self.reduction_run_id)
        self.make_dir_structure_if_clear()
        self.all_eligible_species = set(self.model.model.chemistry.get_species_name(special=False, disabled=False, protected=False))
        self.all_eligible_species = set((sp for sp in self.all_eligible_species if str(sp) not in self.important_outputs))
        if not len(self.all_eligible_species):
            raise ReductionInitError('The chemistry of the passed model does not have any species that can be removed!')
        self.all_species = set(self.model.model.chemistry.get_species_name())
        assert len(self.all_species) == self.model.model.chemistry.num_species()
        self.species_remove_attempted = set([])
        self.left_eligible_species = self.all_eligible_species.copy()
        self.reduction_history = pd.DataFrame(columns=['run_id', 'species', 'ranking_score', 'rm_success', 'rm_additional', 'total_removed', 'total_left', 'error_base_max', 'error_base_rms', 'error_last_max', 'error_last_rms'])
        self.sol_dif_base = None
        self.sol_dif_last = None
        self.compress_logs = True
        self.log_solution = True
        self.log_rates = False
        self.log_wall_fluxes = False

    @spec('O31', aspects='returns raises signature fields effects', fields='*')
    def can_be_removed(self, species: str) -> bool:
        return species in self.left_eligible_species

    @spec('O31', aspects='returns raises signature fields effects', fields='*')
    def make_dir_structure_if_clear(self) -> None:
        if not os.path.isdir(self.reduction_results_dir):
            raise ReductionInitError('Results parent directory {} does not exist!'.format(self.reduction_results_dir))
        if not os.path.isdir(self.reduction_run_dir):
            os.mkdir(self.reduction_run_dir)
            with open(os.path.join(self.reduction_run_dir, self.meta_filename), 'w') as stream:
                yaml.dump(self.meta, stream)
        elif len(os.listdir(self.reduction_run_dir)):
            raise ReductionInitError('{} already exists!'.format(self.reduction_run_dir))

    @spec('O31')
    def _run_model(self, run_id: str) -> None:
        self.model.run(run_id=run_id, log_to=self.reduction_run_dir, verbose=self.verbose_level >= 2)
        for log_flag, file_name in zip([self.log_solution, self.log_rates, self.log_wall_fluxes], ['solution.csv', 'rates.csv', 'wall_fluxes.csv']):
            log_path = os.path.join(self.reduction_run_dir, run_id, file_name)
            if log_flag and self.compress_logs:
                log = pd.read_csv(log_path, index_col=0)
                log = ResultsParser.compress_solution(log, diff_threshold=0.05, min_timestep=0.001)
                log.to_csv(log_path)
            elif not log_flag:
                os.remove(log_path)

    @spec('O31', aspects='returns raises signature fields effects', fields='*')
    def run_base_case(self) -> None:
        if self.reduction_history.shape[0] != 0:
            raise ReductionRunError('The base run needs to be run only once and before any species are removed!')
        assert not len(self.species_remove_attempted)
        assert self.sol_dif_base is None
        assert self.sol_dif_last is None
        run_id = self.base_run_id
        self._run_model(run_id)
        self.reduction_history.loc[0, ['run_id', 'total_removed', 'total_left']] = [run_id, 0, len(self.all_species)]
        self.reduction_history.loc[0, ['error_base_max', 'error_base_rms']] = [0.0, 0.0]
        self.reduction_history.loc[0, ['error_last_max', 'error_last_rms']] = [0.0, 0.0]
        self.reduction_history.at[0, 'rm_success'] = True
        self.log()
        base_sol = self.model.get_solution()
        self.sol_dif_base = SolutionsDiff(base_sol)
        self.sol_dif_last = SolutionsDiff(base_sol)

    @spec('O31', aspects='returns raises signature fields effects', fields='*')
    def remove_one_species_and_run(self, species: str, sp_ranking_score: float=np.nan, backtrack_if_over_max_error: bool=False):
        if self.reduction_history.shape[0] == 0:
            raise ReductionRunError('The base run needs to be run first!')
        if species not in self.left_eligible_species:
            raise ReductionRunError('Species {} cannot be removed!'.format(species))
        assert species not in self.species_remove_attempted
        assert self.meta == yaml.load(open(os.path.join(self.reduction_run_dir, self.meta_filename)), Loader=yaml.FullLoader)
        self.species_remove_attempted.add(species)
        index = len(self.species_remove_attempted)
        assert index == list(self.reduction_history.index)[-1] + 1
        restore_mask = self.reduction_history['rm_success'].copy()
        if backtrack_if_over_max_error:
            restore_mask &= self.reduction_history['error_base_max'] <= self.max_error / 100
        restore_run_id = self.reduction_history.loc[restore_mask, 'run_id'].dropna().iloc[-1]
        restore_chem_attrib_path = os.path.join(self.reduction_run_dir, restore_run_id, 'chemistry_attributes.yaml')
        run_id = self.model_run_id.format(index, species)
        self.reduction_history.loc[index, ['species', 'ranking_score']] = [species, sp_ranking_score]
        species_left_before_remove = set(self.model.model.chemistry.get_species_name())
        try:
            self.model.model.chemistry.disable(species=[species])
            removed_successfully = True
        except ChemistryDisableError:
            removed_successfully = False
        if removed_successfully:
            species_removed = species_left_before_remove - set(self.model.model.chemistry.get_species_name())
            if not species_removed.issubset(self.left_eligible_species):
                removed_successfully = False
                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
        if removed_successfully:
            try:
                try:
                    self._run_model(run_id)
                except KeyboardInterrupt:
                    raise ModelSolutionError('Model solution aborted by KeyboardInterrupt')
                self.left_eligible_species.remove(species)
            except ModelSolutionError:
                removed_successfully = False
                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
                if self.verbose_level >= 2:
                    print('PyGMol solution failed, restoring chemistry to {}\n'.format(restore_run_id))
        species_left = set(self.model.model.chemistry.get_species_name())
        total_left = len(species_left)
        total_removed = len(self.all_species) - total_left
        self.reduction_history.at[index, 'rm_success'] = removed_successfully
        self.reduction_history.loc[index, ['total_removed', 'total_left']] = [total_removed, total_left]
        if removed_successfully:
            species_removed = species_left_before_remove - species_left
            assert species in species_removed, '{} not in {}'.format(species, species_removed)
            implicitly_removed = species_removed - {species}
            if len(implicitly_removed):
                self.reduction_history.at[index, 'rm_additional'] = ', '.join(sorted(implicitly_removed))
                for sp in implicitly_removed:
                    self.left_eligible_species.remove(sp)
            self.reduction_history.at[index, 'run_id'] = run_id
            sol = self.model.get_solution()
            error_base_max = self.sol_dif_base.get_error_max(sol, self.important_outputs, self.important_times)
            error_base_rms = self.sol_dif_base.get_error_rms(sol, self.important_outputs, self.important_times)
            error_last_max = self.sol_dif_last.get_error_max(sol, self.important_outputs, self.important_times)
            error_last_rms = self.sol_dif_last.get_error_rms(sol, self.important_outputs, self.important_times)
            self.reduction_history.loc[index, ['error_base_max', 'error_base_rms']] = [error_base_max, error_base_rms]
            self.reduction_history.loc[index, ['error_last_max', 'error_last_rms']] = [error_last_max, error_last_rms]
            if backtrack_if_over_max_error and error_base_max > self.max_error / 100:
                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
                if self.verbose_level >= 2:
                    print('Maximum error exceeded, restoring chemistry to {}\n'.format(restore_run_id))
                self.left_eligible_species.add(species)
                self.left_eligible_species |= implicitly_removed
            else:
                self.sol_dif_last = SolutionsDiff(sol)
        self.log()
        return self.reduction_history.loc[index].copy()

    @spec('O31', aspects='returns raises signature fields effects', fields='*')
    def log(self) -> None:
        self.reduction_history.to_csv(os.path.join(self.reduction_run_dir, self.reduction_history_filename), header=True, index=True, index_label='run_index')

    @spec('O31', aspects='returns raises signature fields effects', fields='*')
    def run_reduction(self, ranking: Union[pd.Series, Callable[[GlobalModel], pd.Series]], max_unsuccess_streak: int=0) -> None:
        if len(self.model.model.chemistry.get_disabled_species()) or len(self.model.model.chemistry.get_disabled_reactions()):
            raise AssertionError('Chemistry has some disabled reactions or species, cannot run the reduction!')
        dynamic = callable(ranking)
        if self.verbose_level >= 1:
            print()
            print('Running Reduction Run: {}'.format(self.reduction_run_id))
            print()
        unsuccess_streak = 0
        self.run_base_case()
        if not dynamic:
            ranking_series = ranking.copy()
        else:
            ranking_series = ranking(self.model)
        while len(ranking_series):
            out_of_species = False
            assert list(ranking_series.values) == list(sorted(ranking_series.values)), 'Supplied ranking Series is not sorted!'
            sp = ranking_series.index[0]
            ranking_score = ranking_series.pop(sp)
            while sp in self.species_remove_attempted:
                if len(ranking_series):
                    sp = ranking_series.index[0]
                    ranking_score = ranking_series.pop(sp)
                else:
                    out_of_species = True
                    break
            if out_of_species:
                break
            if self.can_be_removed(sp):
                reduction_run_results = self.remove_one_species_and_run(sp, sp_ranking_score=ranking_score, backtrack_if_over_max_error=True)
                reduction_run_max_error = reduction_run_results['error_base_max']
                if not np.isnan(reduction_run_max_error) and reduction_run_max_error > self.max_error / 100:
                    unsuccess_streak += 1
                elif np.isnan(reduction_run_max_error):
                    pass
                else:
                    unsuccess_streak = 0
                    if dynamic:
                        ranking_series = ranking(self.model)
                if unsuccess_streak > max_unsuccess_streak or not len(self.left_eligible_species):
                    break
        if self.verbose_level >= 1:
            print()
            print('Reduction Run {} Finished...'.format(self.reduction_run_id))
            print()
        self.model.model.chemistry.reset()

    @spec('O31', aspects='returns raises signature fields effects', fields='*')
    def run_dynamic_reduction(self, ranking_func, max_unsuccess_streak=0):
        raise NotImplementedError

@spec('O31', aspects='returns raises signature fields effects', fields='*', function='pygmo_fwork.optichem.reduction.compare_reduction_runs')
def compare_reduction_runs(*reduction_runs_paths, line_styles_success=None, line_styles_unsuccess=None, labels=None, annotate=False, dead_ends=True, plot_endpoints=False, plot_max_error=True, fig_size=None, xlim=None, ylim=None, spcs_annotations=None, annotations_shift=None, save_to=None):
    if line_styles_success is None:
        line_styles_success = 10 * ['b-o', 'g-o', 'r-o', 'c-o', 'm-o', 'y-o', 'k-o']
    if line_styles_unsuccess is None:
        line_styles_unsuccess = 10 * ['b:X', 'g:X', 'r:X', 'c:X', 'm:X', 'y:X', 'k:X']
    if labels is None:
        labels = [os.path.split(path)[-1] for path in reduction_runs_paths]
    if spcs_annotations is None:
        spcs_annotations = {}
    if annotations_shift is None:
        annotations_shift = [0.05, -0.45]
    for passed in (line_styles_success, line_styles_unsuccess, labels):
        assert len(passed) >= len(reduction_runs_paths), 'inconsistency in number of attributes!'
    linewidth = 0.75
    history_frames = []
    max_allowed_error = None
    for path in reduction_runs_paths:
        rh = pd.read_csv(os.path.join(path, 'reduction_history.csv'), header=0, index_col=0)
        history_frames.append(rh)
        with open(os.path.join(os.path.join(path, 'meta.yaml')), 'r') as meta:
            delta = yaml.load(meta, Loader=yaml.FullLoader)['max_error']
            if max_allowed_error is None:
                max_allowed_error = delta
            else:
                assert max_allowed_error == delta, 'inconsistent maximal errors in the passed reduction runs!'

    def prettify_species_name(raw_name):
        if raw_name in spcs_annotations:
            return spcs_annotations[raw_name]
        name = raw_name
        for symbol in ['+', '-']:
            name = name.replace(symbol, '$^{%s}$' % symbol)
        for num in '1 2 3 4 5 6 7 8 9'.split():
            name = name.replace(num, '$_{%s}$' % num)
        return name

    def get_text_pos(point_pos):
        pos = np.array(point_pos) + np.array(annotations_shift)
        return pos
    fig, ax = plt.subplots(figsize=fig_size)
    max_eliminated = 0
    max_error = 0
    for i, rh in enumerate(history_frames):
        mask = rh.loc[:, 'rm_success'] & (rh.loc[:, 'error_base_max'] <= max_allowed_error / 100)
        errors = rh.loc[mask, 'error_base_max'] * 100
        if errors.iloc[-1] > max_error:
            max_error = errors.iloc[-1]
        num_eliminated = rh.loc[mask, 'total_removed']
        if plot_endpoints:
            plt.plot(2 * [num_eliminated.iloc[-1]], [-10000000000.0, 10000000000.0], line_styles_unsuccess[i])
        if num_eliminated.iloc[-1] > max_eliminated:
            max_eliminated = num_eliminated.iloc[-1]
        sp_eliminated = []
        for _, row in rh.loc[mask, :].iterrows():
            if pd.isna(row['species']):
                sp_eliminated.append('')
            elif pd.isna(row['rm_additional']):
                sp_eliminated.append(row['species'])
            else:
                sp_eliminated.append('{}, {}'.format(row['species'], row['rm_additional']))
        sp_eliminated = [prettify_species_name(sp) for sp in sp_eliminated]
        ax.plot(num_eliminated, errors, line_styles_success[i], label=labels[i], linewidth=linewidth)
        if annotate:
            for j, point in enumerate(zip(num_eliminated, errors)):
                ax.annotate(sp_eliminated[j], get_text_pos(point), fontsize='x-small', color=line_styles_success[i][0])
        if dead_ends:
            mask_unsuccess = rh.loc[:, 'rm_success'] & (rh.loc[:, 'error_base_max'] > max_allowed_error / 100)
            for unsucc_index in rh.index[mask_unsuccess]:
                if rh.at[unsucc_index, 'error_base_max'] * 100 > max_error:
                    max_error = rh.at[unsucc_index, 'error_base_max'] * 100
                if rh.at[unsucc_index, 'total_removed'] > max_eliminated:
                    max_eliminated = rh.at[unsucc_index, 'total_removed']
                prev_index = rh.index[mask][rh.index[mask] < unsucc_index][-1]
                ax.plot([rh.at[prev_index, 'total_removed'], rh.at[unsucc_index, 'total_removed']], [rh.at[prev_index, 'error_base_max'] * 100, rh.at[unsucc_index, 'error_base_max'] * 100], line_styles_unsuccess[i][:-1], linewidth=linewidth)
                ax.plot(rh.at[unsucc_index, 'total_removed'], rh.at[unsucc_index, 'error_base_max'] * 100, line_styles_unsuccess[i])
                sp_not_eliminated = rh.at[unsucc_index, 'species']
                point = (rh.at[unsucc_index, 'total_removed'], rh.at[unsucc_index, 'error_base_max'] * 100)
                if annotate:
                    ax.annotate(prettify_species_name(sp_not_eliminated), get_text_pos(point), fontsize='x-small', color=line_styles_unsuccess[i][0])
    if xlim is None:
        xlim = (-0.5, max_eliminated + 0.5)
    if ylim is None:
        ylim = (-0.9, max(max_error, max_allowed_error) + 0.9)
    if plot_max_error:
        ax.plot(xlim, (max_allowed_error, max_allowed_error), 'r--', label='maximal allowed reduction error')
    ax.grid()
    ax.set_xlabel('Number of eliminated species')
    ax.set_ylabel('Reduction error $\\delta$ (%)')
    ax.set_xlim(xlim)
    ax.set_ylim(ylim)
    ax.legend()
    fig.tight_layout()
    if save_to is None:
        plt.show()
    else:
        plt.savefig(save_to)
