"""Reference semantics of pygmo_fwork/pygmol/model_parameters.py.  Parsed, never executed."""
import numbers
import numpy as np
from pygmo_fwork.pygmol.exceptions import ModelParametersError, ModelParametersConsistencyError, ModelParametersTypeError

class TypeCheck(object):

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def assert_is_number(item, number_type='positive'):
        if isinstance(item, bool):
            raise ModelParametersTypeError('The parameter {} needs to be a Number type!'.format(item))
        if isinstance(item, numbers.Number) and np.isnan(item):
            raise ModelParametersTypeError('The parameter {} needs to be a Number type!'.format(item))
        if not isinstance(item, numbers.Number):
            raise ModelParametersTypeError('The parameter {} needs to be a Number type!'.format(item))
        if number_type == 'positive':
            if item <= 0:
                raise ModelParametersTypeError('The parameter {} needs to be positive!'.format(item))
        elif number_type == 'non-negative':
            if item < 0:
                raise ModelParametersTypeError('The parameter {} needs to be positive!'.format(item))
        elif number_type == 'any':
            pass
        else:
            raise ValueError('This should never happen!')

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def assert_is_string(item):
        if not isinstance(item, str):
            raise ModelParametersTypeError('The parameter {} needs to be a string type!'.format(item))

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def assert_is_dict(item):
        if not isinstance(item, dict):
            raise ModelParametersTypeError('The parameter {} needs to be a dict type!'.format(item))

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def is_collection(item):
        return hasattr(item, '__iter__') and (not isinstance(item, (str, bytes, bytearray)))

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def assert_is_collection(self, item):
        if self.is_collection(item):
            pass
        else:
            raise ModelParametersTypeError('The parameter {} needs to be an iterable type!'.format(item))

class _ModelParametersFeeds(dict, TypeCheck):

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, d):
        for key, value in d.items():
            self.assert_is_string(key)
            self.assert_is_number(value)
        super().__init__(d)

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __setitem__(self, key, value):
        self.assert_is_string(key)
        self.assert_is_number(value)
        super().__setitem__(key, value)

class _ModelParametersPower(TypeCheck):

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __init__(self):
        self._power_array = None
        self._time_array = None

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def set_power(self, power_array):
        if len(power_array) < 2:
            raise ModelParametersConsistencyError('"power" parameter needs to have length at least 2!')
        for power in power_array:
            self.assert_is_number(power, number_type='non-negative')
        if self._time_array is not None and len(self._time_array) != len(power_array):
            raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
        self._power_array = list(power_array)

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def get_power(self):
        if self.is_collection(self._power_array):
            return list(self._power_array)
        else:
            return self._power_array

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def set_time(self, time_array):
        if len(time_array) < 2:
            raise ModelParametersConsistencyError('"t_power" parameter needs to have length at least 2!')
        for time in time_array:
            self.assert_is_number(time, number_type='any')
        if self._power_array is not None and len(self._power_array) != len(time_array):
            raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
        self._time_array = list(time_array)

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def get_time(self):
        if self.is_collection(self._time_array):
            return list(self._time_array)
        else:
            return self._time_array

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def assert_consistency(self, t_end):
        if self._power_array is None or self._time_array is None:
            raise ModelParametersConsistencyError('Either "power" or "t_power" parameter not defined!')
        if self._time_array[0] > 0.0:
            raise ModelParametersConsistencyError('The "t_power" parameter needs to start with t_i <= 0.0 s!')
        if self._time_array[-1] < 1.1 * t_end:
            raise ModelParametersConsistencyError('The "t_power" parameter needs to end with t_f >= 1.1*t_end!')

@tables('M18')
class _ModelParametersBase(TypeCheck):
    nominal2alternative_map = {'radius': ('r', 'R'), 'length': ('z', 'Z'), 'pressure': ('p',), 'power': ('P',), 't_power': ('t_P', 'time_P', 'time_power'), 'temp_gas': ('Tg', 'T_g', 'gas_temp'), 'feeds': ('feed_flows',), 't_end': ('time_end', 'end_time')}
    alternative2nominal_map = {key: key for key in nominal2alternative_map.keys()}
    for key in nominal2alternative_map:
        alt_keys = nominal2alternative_map[key]
        keys = len(alt_keys) * (key,)
        alternative2nominal_map.update(dict(zip(alt_keys, keys)))

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __setitem__(self, key, value):
        raise TypeError('ModelParameters instance does not allow to set items after instantiation!')

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __delitem__(self, key):
        raise TypeError('ModelParameters instance does not allow to delete items!')

class ModelParameters(_ModelParametersBase):

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, model_params=None, **additional_model_params):
        if model_params is None:
            all_passed_params = {}
        else:
            all_passed_params = dict(model_params)
        all_passed_params.update(additional_model_params)
        self.parameters = {}
        passed_nominal_keys = set()
        for key in all_passed_params:
            if key in self.alternative2nominal_map:
                passed_nominal_keys.add(self.alternative2nominal_map[key])
            else:
                raise ModelParametersError('Passed parameters include unsupported key: {}'.format(key))
        required_nominal_keys = set(self.nominal2alternative_map)
        if len(passed_nominal_keys - required_nominal_keys):
            raise ModelParametersError('Passed parameters include unsupported keys: {}'.format(passed_nominal_keys - required_nominal_keys))
        if len(required_nominal_keys - passed_nominal_keys):
            raise ModelParametersError('Passed parameters missing some required keys: {}'.format(required_nominal_keys - passed_nominal_keys))
        power_cls = _ModelParametersPower()
        for key, value in all_passed_params.items():
            nom_key = self.alternative2nominal_map[key]
            if nom_key in {'radius', 'length', 'pressure', 'temp_gas', 't_end'}:
                self.assert_is_number(value)
                self.parameters[nom_key] = value
            elif nom_key == 'power':
                self.assert_is_collection(value)
                power_cls.set_power(value)
                self.parameters[nom_key] = power_cls
            elif nom_key == 't_power':
                self.assert_is_collection(value)
                power_cls.set_time(value)
                self.parameters[nom_key] = power_cls
            elif nom_key == 'feeds':
                self.assert_is_dict(value)
                self.parameters[nom_key] = _ModelParametersFeeds(value)
            else:
                raise ModelParametersError('Unexpected nominal key "{}": Inconsistent __init__ method!'.format(nom_key))
        if self.parameters['power'] is not self.parameters['t_power']:
            raise ModelParametersError('This should never happen!')
        self.parameters['power'].assert_consistency(t_end=self.parameters['t_end'])

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __getitem__(self, key):
        if key not in self.alternative2nominal_map:
            raise ModelParametersError('Trying to get an unsupported parameter {}!'.format(key))
        nom_key = self.alternative2nominal_map[key]
        if nom_key == 'feeds':
            return dict(self.parameters[nom_key])
        elif nom_key == 'power':
            return self.parameters[nom_key].get_power()
        elif nom_key == 't_power':
            return self.parameters[nom_key].get_time()
        return self.parameters[nom_key]

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __repr__(self):
        return self.parameters.__repr__()

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __str__(self):
        return self.parameters.__str__()

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __len__(self):
        return self.parameters.__len__()

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def __iter__(self):
        return self.parameters.__iter__()

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def keys(self):
        return self.parameters.keys()

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def values(self):
        return {key: self[key] for key in self}.values()

    @spec('M18', aspects='returns raises signature fields effects', fields='*')
    def items(self):
        return {key: self[key] for key in self}.items()
