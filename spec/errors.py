"""Reference semantics of pygmo_fwork/optichem/errors.py.  Parsed, never executed."""
import numpy as np
import pandas as pd
from scipy.interpolate import interp1d

class SolutionsDiff(object):

    @spec('O32', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, sol_full):
        self._validate_solution(sol_full)
        self.sol_full = sol_full

    @spec('O32', aspects='returns raises signature fields effects', fields='*')
    def reset(self, sol_full):
        self.__init__(sol_full)

    @spec('O32')
    @staticmethod
    def _array_rms(array):
        return np.sqrt(np.mean(np.square(array)))

    @spec('O32')
    @staticmethod
    def _validate_solution(solution):
        assert isinstance(solution, pd.DataFrame), 'Solution needs to be pandas.DataFrame'
        assert 't' in solution.columns, 'Solution needs to containt time column "t"'

    @spec('O32')
    @staticmethod
    def _get_result_in_time(solution, model_output, time):
        assert model_output in solution.columns, 'Output {} not in the passed solution!'.format(model_output)
        assert solution['t'].iloc[0] <= time <= solution['t'].iloc[-1], 'Time t={}s outside of the solution time frame!'.format(time)
        return float(interp1d(solution['t'], solution[model_output])(time))

    @spec('O32', aspects='returns raises signature fields effects', fields='*')
    def get_output_errors(self, sol_red, model_output, times):
        vals_full = np.array([self._get_result_in_time(self.sol_full, model_output, time) for time in times])
        vals_red = np.array([self._get_result_in_time(sol_red, model_output, time) for time in times])
        deltas_output = 2 * (vals_red - vals_full) / (vals_full + max(vals_full))
        return deltas_output

    @spec('O32', aspects='returns raises signature fields effects', fields='*')
    def get_output_error_max(self, sol_red, model_output, times):
        return max(np.absolute(self.get_output_errors(sol_red, model_output, times)))

    @spec('O32', aspects='returns raises signature fields effects', fields='*')
    def get_output_error_rms(self, sol_red, model_output, times):
        return self._array_rms(self.get_output_errors(sol_red, model_output, times))

    @spec('O32', aspects='returns raises signature fields effects', fields='*')
    def get_error_max(self, sol_red, important_outputs, times):
        return max([self.get_output_error_max(sol_red, model_output, times) for model_output in important_outputs])

    @spec('O32', aspects='returns raises signature fields effects', fields='*')
    def get_error_rms(self, sol_red, important_outputs, times):
        return self._array_rms(np.array([self.get_output_error_rms(sol_red, model_output, times) for model_output in important_outputs]))
