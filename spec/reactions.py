"""What the documented reaction methods must compute (docstrings of plaschem/reactions.py).  Parsed, never executed."""
from collections import OrderedDict, Counter
import numpy as np
from plaschem.exceptions import ReactionInitError, ReactionAttributeError, ReactionValueError


@tables('C03', mandatory_attributes='C04', allowed_attribute_types='C04', allowed_attribute_values='C04',
        attributes_with_mandatory_units='C04', allowed_unit_values='C04', default_attributes='C03 X14 X15',
        si_conversion_factors='C03 E22', nonetype='C04')
class Reaction:
    mandatory_attributes = set()
    default_attributes = OrderedDict([('arrh_a', None), ('arrh_b', None), ('arrh_c', None), ('elastic', None), ('el_en_loss', 0.0), ('gas_heat_contrib', 0.0), ('special_number', None), ('qdb_r_id', None), ('qdb_ds_id', None), ('doi', None), ('comments', None), ('latex', None)])
    allowed_attribute_values = {'elastic': {None, 'true', 'True', 'TRUE', 'false', 'False', 'FALSE', True, False}}
    nonetype = type(None)
    allowed_attribute_types = {'arrh_a': [float, np.float64, str, int, nonetype], 'arrh_b': [float, np.float64, str, int, nonetype], 'arrh_c': [float, np.float64, str, int, nonetype], 'el_en_loss': [float, np.float64, str, int, nonetype], 'gas_heat_contrib': [float, np.float64, str, int, nonetype], 'special_number': [int, str, nonetype], 'qdb_r_id': [int, str, nonetype], 'qdb_ds_id': [int, str, nonetype], 'doi': [str, nonetype], 'comments': [str, nonetype], 'elastic': [bool, str, nonetype], 'latex': [str, nonetype]}
    attributes_with_mandatory_units = {'arrh_a', 'arrh_c'}
    default_units = OrderedDict([('arrh_a', None), ('arrh_c', None), ('el_en_loss', 'eV'), ('gas_heat_contrib', 'eV')])
    allowed_unit_values = {'arrh_a': {None, 's-1', 'cm3.s-1', 'm3.s-1', 'cm6.s-1', 'm6.s-1'}, 'arrh_c': {None, 'eV', 'K'}, 'el_en_loss': {None, 'eV'}, 'gas_heat_contrib': {None, 'eV'}}
    si_conversion_factors = {'arrh_a': {'s-1': 1.0, 'm3.s-1': 1.0, 'm6.s-1': 1.0, 'cm3.s-1': 1e-06, 'cm6.s-1': 1e-12}}

    @spec('C01 C04', aspects='raises signature fields effects', fields='*')
    def __init__(self, r_id, reactants, products, attributes=None, units=None, **additional_attributes):
        if units is None:
            units = {}
        if attributes is None:
            all_attributes = {}
        else:
            all_attributes = attributes.copy()
        all_attributes.update(additional_attributes)
        if type(r_id) is not int or r_id <= 0:
            raise ReactionInitError()
        self.id = r_id
        if len(reactants) < 1 or len(products) < 1:
            raise ReactionInitError()
        if len(reactants) > 3:
            raise ReactionInitError()
        self._reactants = tuple(reactants)
        self._products = tuple(products)
        mandatory_attributes = self.mandatory_attributes.copy()
        if 'special_number' not in all_attributes:
            mandatory_attributes |= {'arrh_a'}
        if not mandatory_attributes.issubset(set(all_attributes)):
            raise ReactionAttributeError()
        if not set(all_attributes).issubset(set(self.default_attributes)):
            raise ReactionAttributeError()
        supported_unitful_attributes = set(self.default_units) & set(all_attributes)
        if not set(units).issubset(supported_unitful_attributes):
            raise ReactionAttributeError()
        mandatory_units = self.attributes_with_mandatory_units & set(all_attributes)
        if not mandatory_units.issubset(set(units)):
            raise ReactionAttributeError()
        self._units = {}
        for key in self.default_attributes:
            unit = units[key] if key in units else None
            if key in all_attributes:
                self.set_reaction_attribute(key, all_attributes[key], unit=unit)
            else:
                self.set_reaction_attribute(key, None, unit=unit)
        self.assert_consistency()

    @spec('C03')
    def is_elastic_process(self):
        return self.get_elastic()

    @spec('L17')
    def get_latex(self):
        latex = self._latex
        if latex is not None:
            latex = str(latex)
        else:
            species_dicts = [OrderedDict(), OrderedDict()]
            for sp_dict, id_stoich in zip(species_dicts, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
                for sp_id in id_stoich:
                    sp_latex = self.get_rp(sp_id).get_latex()
                    if id_stoich[sp_id] == 1:
                        sp_dict[sp_latex] = ''
                    elif id_stoich[sp_id] > 1:
                        sp_dict[sp_latex] = '{} '.format(id_stoich[sp_id])
            sides = [' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_dict.items()]) for species_dict in species_dicts]
            latex = '{} \\rightarrow {}'.format(*sides)
        return latex

    @spec('C01')
    def get_reactants(self):
        return self._reactants

    @spec('C01')
    def get_products(self):
        return self._products

    # ---- charge (arbitrary body M left out) and every atom count balance, or the reaction is refused
    @spec('C01', aspects='raises')
    def assert_consistency(self):
        charge_in = sum(sp.get_charge() for sp in self.get_reactants() if sp.get_name() != 'M')
        charge_out = sum(sp.get_charge() for sp in self.get_products() if sp.get_name() != 'M')
        atoms_in, atoms_out = {}, {}
        for sp in self.get_reactants():
            for atom, n in sp.get_atoms().items():
                atoms_in[atom] = atoms_in.get(atom, 0) + n
        for sp in self.get_products():
            for atom, n in sp.get_atoms().items():
                atoms_out[atom] = atoms_out.get(atom, 0) + n
        if charge_in != charge_out or atoms_in != atoms_out:
            raise ReactionValueError()

    @spec('C02')
    def get_stoich_coefs(self, method='net'):
        if method == 'lhs':
            coefs = OrderedDict((i, 0) for i in self.get_rp_ids_set(method='lhs'))
            for sp in self.get_reactants():
                coefs[sp.id] += 1
            return coefs
        if method == 'rhs':
            coefs = OrderedDict((i, 0) for i in self.get_rp_ids_set(method='rhs'))
            for sp in self.get_products():
                coefs[sp.id] += 1
            return coefs
        if method == 'net':
            coefs = OrderedDict((i, 0) for i in self.get_rp_ids_set(method='all'))
            for sp in self.get_reactants():
                coefs[sp.id] -= 1
            for sp in self.get_products():
                coefs[sp.id] += 1
            return coefs
        raise ReactionValueError()

    @spec('C02')
    def get_rp_names_set(self, method='all'):
        if method == 'lhs':
            names = [sp.get_name() for sp in self.get_reactants()]
        elif method == 'rhs':
            names = [sp.get_name() for sp in self.get_products()]
        elif method == 'all':
            names = [sp.get_name() for sp in self.get_reactants()] + [sp.get_name() for sp in self.get_products()]
        else:
            raise ReactionValueError()
        return tuple(sorted(set(names), key=names.index))

    @spec('C02')
    def get_rp_ids_set(self, method='all'):
        if method == 'lhs':
            ids = [sp.id for sp in self.get_reactants()]
        elif method == 'rhs':
            ids = [sp.id for sp in self.get_products()]
        elif method == 'all':
            ids = [sp.id for sp in self.get_reactants()] + [sp.id for sp in self.get_products()]
        else:
            raise ReactionValueError()
        return tuple(sorted(set(ids), key=ids.index))

    @spec('C03 C02')
    def is_electron_process(self):
        return 'e' in self.get_rp_names_set('lhs')

    @spec('C01')
    def get_string(self):
        return str(self)

    @spec('C01')
    def __str__(self):
        lhs = ' + '.join(sp.get_name() for sp in self.get_reactants())
        rhs = ' + '.join(sp.get_name() for sp in self.get_products())
        return '%s > %s' % (lhs, rhs)

    @spec('C01')
    def __repr__(self):
        return self.__str__()

    # ---- identity of a reaction does not depend on the order of species on a side
    @staticmethod
    @spec('C05')
    def unique_key(r_string):
        sides = r_string.split(' > ')
        lhs, rhs = sides
        return tuple(sorted([name.strip() for name in lhs.split(' + ')])), \
            tuple(sorted([name.strip() for name in rhs.split(' + ')]))

    @spec('C02')
    def get_rp(self, rp):
        if rp in self.get_rp_names_set('all'):
            for sp in self.get_reactants() + self.get_products():
                if sp.get_name() == rp:
                    return sp
            raise ValueError()
        if rp in self.get_rp_ids_set('all'):
            for sp in self.get_reactants() + self.get_products():
                if sp.id == rp:
                    return sp
        raise ValueError()

    @spec('C02')
    def get_hpem_string(self, backward=False):
        lhs = ' + '.join(sp.get_hpem_name() for sp in self.get_reactants())
        rhs = ' + '.join(sp.get_hpem_name() for sp in self.get_products())
        return '%s > %s' % ((rhs, lhs) if backward else (lhs, rhs))

    @spec('C02')
    def is_ion_process(self):
        return np.array([sp.get_charge() for sp in self.get_reactants() if not sp.is_special()]).any()

    # ---- k(T) = a (T/300)^b exp(-c/T), electron processes with T in eV and no reference temperature
    @spec('C03')
    def get_rate_coefficient(self, temp, si_units=True):
        a = self.get_arrh_a(si_units=si_units)
        if a is None:
            raise ReactionValueError()
        if self.is_electron_process():
            return a * temp ** self.get_arrh_b() * np.exp(-self.get_arrh_c() / temp)
        return a * (temp / 300.) ** self.get_arrh_b() * np.exp(-self.get_arrh_c() / temp)

    @spec('C03')
    def get_electron_collision_partner(self):
        if not self.is_electron_process():
            raise ReactionValueError()
        for sp in self.get_reactants():
            if not sp.is_special():
                return sp
        raise ReactionValueError()

    # ---- setter: every check precedes the store; units must match the number / kind of reactants
    @spec('C04 C03', aspects='raises signature fields effects', fields='*')
    def set_reaction_attribute(self, attribute, value, unit=None):
        if value is not None and unit is not None:
            if attribute not in self.allowed_unit_values.keys():
                raise ReactionAttributeError()
            if unit not in self.allowed_unit_values[attribute]:
                raise ReactionAttributeError()
        if value is not None and unit is None and attribute in self.attributes_with_mandatory_units:
            raise ReactionAttributeError()
        if attribute == 'arrh_c' and value is not None:
            if self.is_electron_process() and unit != 'eV':
                raise ReactionAttributeError()
            if not self.is_electron_process() and unit != 'K':
                raise ReactionAttributeError()
        if attribute == 'arrh_a' and value is not None:
            n = len(self.get_reactants())
            if n == 1 and unit != 's-1':
                raise ReactionAttributeError()
            if n == 2 and not unit.endswith('3.s-1'):
                raise ReactionAttributeError()
            if n == 3 and not unit.endswith('6.s-1'):
                raise ReactionAttributeError()
            if n > 3:
                raise ReactionInitError()
        if attribute not in self.default_attributes:
            raise ReactionAttributeError()
        if attribute in self.allowed_attribute_values and value not in self.allowed_attribute_values[attribute]:
            raise ReactionAttributeError()
        if type(value) not in self.allowed_attribute_types[attribute]:
            raise ReactionAttributeError()
        if attribute == 'arrh_a' and value is not None and float(value) < 0:
            raise ReactionAttributeError()
        setattr(self, '_' + attribute, value)
        self._units[attribute] = unit

    @spec('C03')
    def get_arrh_a(self, si_units=True):
        if self._arrh_a is None:
            return None
        if si_units:
            return float(self._arrh_a) * self.si_conversion_factors['arrh_a'][self.get_unit('arrh_a')]
        return float(self._arrh_a)

    @spec('C03')
    def get_arrh_b(self):
        if self._arrh_b is not None:
            return float(self._arrh_b)
        return None if self.get_arrh_a() is None else 0.

    @spec('C03')
    def get_arrh_c(self):
        if self._arrh_c is not None:
            return float(self._arrh_c)
        return None if self.get_arrh_a() is None else 0.

    @spec('C02')
    def get_elastic(self):
        if self._elastic is None:
            return set(self.get_rp_names_set('lhs')) == set(self.get_rp_names_set('rhs'))
        return self._elastic in {'true', 'True', 'TRUE', True}

    @spec('C03')
    def get_el_en_loss(self):
        return self.default_attributes['el_en_loss'] if self._el_en_loss is None else float(self._el_en_loss)

    @spec('C03')
    def get_gas_heat_contrib(self):
        return self.default_attributes['gas_heat_contrib'] if self._gas_heat_contrib is None \
            else float(self._gas_heat_contrib)

    @spec('C03')
    def get_special_number(self):
        if self._special_number is not None:
            return int(self._special_number)
        return 10 if self.is_electron_process() else 20

    @spec('C03')
    def get_qdb_r_id(self):
        return None if self._qdb_r_id is None else int(self._qdb_r_id)

    @spec('C03')
    def get_qdb_ds_id(self):
        return None if self._qdb_ds_id is None else int(self._qdb_ds_id)

    @spec('C03')
    def get_doi(self):
        return None if self._doi is None else str(self._doi)

    @spec('C03')
    def get_comments(self):
        return None if self._comments is None else str(self._comments)

    @spec('C03')
    def get_unit(self, attribute):
        if attribute not in self.default_units:
            raise ReactionAttributeError()
        return self.default_units[attribute] if self._units[attribute] is None else str(self._units[attribute])
