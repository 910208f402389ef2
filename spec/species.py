"""What the documented species accessors must return (docstrings of plaschem/species.py).  Parsed, never executed."""
from pyvalem.formula import Formula
from plaschem.latex import Texify
from plaschem.exceptions import RPInitError, RPAttributeError
import re
from collections import OrderedDict
import numpy as np


@tables('C03', mandatory_attributes='C04', allowed_attribute_types='C04', invalid_name_characters='C04',
        attributes_with_mandatory_units='C04', allowed_unit_values='C04', default_attributes='C03 X14 X15',
        special_species_names='C01 C03', nonetype='C04')
class RP:
    mandatory_attributes = {'name', 'mass'}
    default_attributes = OrderedDict([('name', None), ('stateless', None), ('state', None), ('mass', None), ('charge', 0), ('h_form', 0.0), ('lj_epsilon', 0.0), ('lj_sigma', 3.0), ('hpem_name', None), ('qdb_id', None), ('stick_coef', None), ('ret_coefs', None), ('comments', None), ('latex', None)])
    nonetype = type(None)
    allowed_attribute_types = {'name': [str, nonetype], 'stateless': [str, nonetype], 'state': [str, nonetype], 'mass': [float, np.float64, str, int, nonetype], 'charge': [int, str, nonetype], 'h_form': [float, np.float64, str, int, nonetype], 'lj_epsilon': [float, np.float64, str, int, nonetype], 'lj_sigma': [float, np.float64, str, int, nonetype], 'hpem_name': [str, nonetype], 'qdb_id': [int, str, nonetype], 'stick_coef': [float, np.float64, str, int, nonetype], 'ret_coefs': [dict, nonetype], 'comments': [str, nonetype], 'latex': [str, nonetype]}
    special_species_names = {'e', 'M'}
    invalid_name_characters = {'<', '>'}
    attributes_with_mandatory_units = set()
    default_units = OrderedDict([('mass', 'amu'), ('charge', 'e'), ('h_form', 'eV'), ('lj_epsilon', 'K'), ('lj_sigma', 'A')])
    allowed_unit_values = {'mass': {None, 'amu'}, 'charge': {None, 'e'}, 'h_form': {None, 'eV'}, 'lj_epsilon': {None, 'K'}, 'lj_sigma': {None, 'A'}}

    @spec('C01 C04', aspects='raises signature fields effects', fields='*')
    def __init__(self, rp_id, attributes=None, units=None, **additional_attributes):
        if units is None:
            units = {}
        if attributes is None:
            all_attributes = {}
        else:
            all_attributes = attributes.copy()
        all_attributes.update(additional_attributes)
        if type(rp_id) is not int or rp_id < 0:
            raise RPInitError()
        self.id = rp_id
        mandatory_attributes = self.mandatory_attributes.copy()
        if 'state' in all_attributes and all_attributes['state']:
            mandatory_attributes.add('stateless')
        if 'name' in all_attributes and all_attributes['name'] == 'M':
            mandatory_attributes.remove('mass')
        if not mandatory_attributes.issubset(set(all_attributes)):
            raise RPAttributeError()
        if len(set(all_attributes['name']) & self.invalid_name_characters):
            raise RPAttributeError()
        if not set(all_attributes).issubset(set(self.default_attributes)):
            raise RPAttributeError()
        supported_unitful_attributes = set(self.default_units) & set(all_attributes)
        if not set(units).issubset(supported_unitful_attributes):
            raise RPAttributeError()
        mandatory_units = self.attributes_with_mandatory_units & set(all_attributes)
        if not mandatory_units.issubset(set(units)):
            raise RPAttributeError()
        self._units = {}
        for key in self.default_attributes:
            unit = units[key] if key in units else None
            if key in all_attributes:
                self.set_species_attribute(key, all_attributes[key], unit=unit)
            else:
                self.set_species_attribute(key, None, unit=unit)

    @spec('C01')
    def __str__(self):
        return self.get_name()

    @spec('C01')
    def __repr__(self):
        return self.get_name()

    # ---- "Each RP ... electron needs to have a 'e' name and an arbitrary heavy species needs to have a 'M' name"
    @spec('C01 C03')
    def is_special(self):
        return self.get_name() == 'e' or self.get_name() == 'M'

    @spec('C13')
    def is_stateless(self):
        return self.get_state() is None

    @spec('C01')
    def get_atoms(self):
        name = self.get_name()
        if name == 'e':
            return {}
        elif name == 'M':
            return {'M': 1}
        else:
            return dict(Formula(self.strip_charge(stateless_name=self.get_stateless())).atom_stoich)

    # ---- setter: nothing is stored unless every check passed
    @spec('C04', aspects='raises signature fields effects', fields='*')
    def set_species_attribute(self, attribute, value, unit=None):
        if value is not None and unit is not None and attribute not in self.allowed_unit_values.keys():
            raise RPAttributeError()
        if value is not None and unit is not None and unit not in self.allowed_unit_values[attribute]:
            raise RPAttributeError()
        if value is not None and attribute in self.attributes_with_mandatory_units and unit is None:
            raise RPAttributeError()
        if attribute not in self.default_attributes:
            raise RPAttributeError()
        if type(value) not in self.allowed_attribute_types[attribute]:
            raise RPAttributeError()
        setattr(self, '_' + attribute, value)
        self._units[attribute] = unit

    # ---- getters: converted stored value, documented default otherwise
    @spec('C03')
    def get_name(self):
        if self._name is None:
            raise RPAttributeError
        return str(self._name)

    @spec('C03')
    def get_stateless(self):
        if self.is_special():
            return self.get_name()
        if self._stateless is not None:
            return self._stateless
        if self.get_state() is not None:
            raise RPAttributeError()
        return self.get_name()

    @spec('C03')
    def get_state(self):
        if self.is_special() or self._state is None:
            return None
        return str(self._state)

    @spec('C03')
    def get_mass(self):
        if self.get_name() == 'M':
            return None
        if self._mass is None:
            raise RPAttributeError()
        return float(self._mass)

    @spec('C01 C03')
    def get_charge(self):
        if self.get_name() == 'M':
            return None
        return self.default_attributes['charge'] if self._charge is None else int(self._charge)

    @spec('C03')
    def get_h_form(self):
        if self.is_special():
            return None
        return self.default_attributes['h_form'] if self._h_form is None else float(self._h_form)

    @spec('C03')
    def get_lj_epsilon(self):
        if self.is_special():
            return None
        return self.default_attributes['lj_epsilon'] if self._lj_epsilon is None else float(self._lj_epsilon)

    @spec('C03')
    def get_lj_sigma(self):
        if self.is_special():
            return None
        return self.default_attributes['lj_sigma'] if self._lj_sigma is None else float(self._lj_sigma)

    @spec('C03')
    def get_hpem_name(self):
        return None if self._hpem_name is None else str(self._hpem_name)

    @spec('C03')
    def get_qdb_id(self):
        return None if self._qdb_id is None else int(self._qdb_id)

    @spec('C13')
    def get_stick_coef(self):
        if self.is_special():
            return None
        if self._stick_coef is not None:
            return float(self._stick_coef)
        ground_state_neutral = self.get_state() is None and self.get_charge() == 0
        return 0. if ground_state_neutral else 1.

    @spec('C13')
    def get_ret_coefs(self):
        if self.is_special():
            return None
        if self._ret_coefs is not None:
            return {name: float(coef) for name, coef in self._ret_coefs.items()}
        ground_state_neutral = self.get_state() is None and self.get_charge() == 0
        return {} if ground_state_neutral else {self.strip_charge(self.get_stateless()): 1.}

    @spec('C03')
    def get_comments(self):
        return None if self._comments is None else str(self._comments)

    @spec('L17')
    def get_latex(self):
        return Texify.texify_species(self.get_name()) if self._latex is None else str(self._latex)

    @spec('C03')
    def get_unit(self, attribute):
        if attribute not in self.default_units:
            raise RPAttributeError()
        if self._units[attribute] is None:
            return self.default_units[attribute]
        return str(self._units[attribute])

    @staticmethod
    @spec('C01 C13')
    def strip_charge(stateless_name):
        return str(re.sub('(?:{}|{})'.format(r'[+-]+$', r'[+-]\d+$'), '', stateless_name))
