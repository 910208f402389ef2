"""Reference semantics of plaschem/chemistry.py.  Parsed, never executed."""
import copy
import hashlib
import os
import warnings
import numpy as np
import pandas as pd
import yaml
from plaschem.classification import ReactionClassifier
from plaschem.exceptions import ChemistryConsistencyError, ReactionAttributeError, RPAttributeError, ChemistrySpeciesNotPresentError, ChemistryReactionNotPresentError, ChemistryDisableError, ChemistryInitError, ChemistryAttributeError
from plaschem.pretty_print import ColorValue
from plaschem.reactions import Reaction
from plaschem.species import RP
from plaschem.xml_inputs import XmlParser

@tables('C09')
class Chemistry(object):
    requires_charge = True

    @spec('C05', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, species=None, reactions=None, xml_path=None):
        legal = species is not None and reactions is not None or (species is None and reactions is None and (xml_path is not None))
        if not legal:
            raise ChemistryInitError('Unsupported combination of attributes and values!')
        if reactions is None:
            species, reactions = XmlParser().get_species_and_reactions(xml_path=xml_path)
        sp_ids = [sp.id for sp in species]
        r_ids = [r.id for r in reactions]
        if len(sp_ids) != len(set(sp_ids)) or len(r_ids) != len(set(r_ids)):
            raise ChemistryConsistencyError('The ids of species and reactions need to be unique!!')
        self.xml_path = xml_path
        self._species = pd.Series(species, index=[sp.id for sp in species])
        self._reactions = pd.Series(reactions, index=[r.id for r in reactions], name='Reactions')
        self._special_sp = pd.Series([sp.is_special() for sp in species], index=self._species.index)
        self._enabled_sp = pd.Series(True, index=self._species.index)
        self._protected_sp = pd.Series(False, index=self._species.index)
        self._adhoc_protected_sp = pd.Series(False, index=self._species.index)
        self._enabled_r = pd.Series(True, index=self._reactions.index)
        self.adhoc_species_attributes = {'stick_coef': pd.Series(dtype='O'), 'ret_coefs': pd.Series(dtype='O')}
        self.adhoc_reactions_attributes = {'arrh_a': pd.Series(dtype='O')}
        self.assert_consistency()
        if self.requires_charge:
            self.set_protected_species('e')
            positive_ions = self.get_species()[self.get_species_charge().values > 0]
            if len(positive_ions) == 1:
                self.set_protected_species(positive_ions.iat[0])

    @spec('C11', aspects='returns raises signature fields effects', fields='*')
    def copy(self):
        self_copy = type(self)(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
        self_copy._enabled_sp = self._enabled_sp.copy()
        self_copy._protected_sp = self._protected_sp.copy()
        self_copy._adhoc_protected_sp = self._adhoc_protected_sp.copy()
        self_copy._enabled_r = self._enabled_r.copy()
        for key in self.adhoc_species_attributes:
            self_copy.adhoc_species_attributes[key] = self.adhoc_species_attributes[key].copy()
            if key == 'ret_coefs':
                for i in self_copy.adhoc_species_attributes[key].index:
                    self_copy.adhoc_species_attributes[key].at[i] = copy.deepcopy(self_copy.adhoc_species_attributes[key].at[i])
        for key in self.adhoc_reactions_attributes:
            self_copy.adhoc_reactions_attributes[key] = self.adhoc_reactions_attributes[key].copy()
        return self_copy

    @spec('C05', aspects='returns raises signature fields effects', fields='*')
    def assert_consistency(self):
        sp_names = self.get_species_name(special=True)
        if self.requires_charge:
            if 'e' not in list(sp_names.values):
                raise ChemistryConsistencyError('Chemistry needs the electron species!')
            species_charge = self.get_species_charge()
            if not (species_charge.values > 0).any():
                raise ChemistryConsistencyError('Chemistry needs at least one positive ion!')
        sp_ids = sp_names.index
        if len(sp_names) != len(set(sp_names)):
            raise ChemistryConsistencyError('Species with duplicate names present!')
        if len(sp_ids) != len(set(sp_ids)):
            raise ChemistryConsistencyError('Species with duplicate ids present!')
        species = self.get_species(special=True)
        confirmed = set([])
        for r in self.get_reactions():
            for rp_set in (r.get_reactants(), r.get_products()):
                for rp in rp_set:
                    if any([rp is sp for sp in species]):
                        confirmed.add(rp.get_name())
                    else:
                        raise ChemistryConsistencyError('{} from {} was not passed to the chemistry in "species"'.format(rp, r))
        if len(species) != len(confirmed):
            raise ChemistryConsistencyError('Species {} specified in the chemistry is not in any of the reactions!'.format(list(set([sp.get_name() for sp in species]) - confirmed)[0]))
        ret_sp_names = set()
        for ret_coefs in self.get_species_ret_coefs(special=True):
            if ret_coefs is not None:
                for sp_name in ret_coefs:
                    ret_sp_names.add(sp_name)
        if not ret_sp_names.issubset(set(sp_names)):
            raise ChemistryConsistencyError('Some of the return species are not present in the chemistry: {}!'.format(ret_sp_names - set(sp_names)))

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_rp(self, rp):
        try:
            if type(rp) == int:
                return self._species.at[rp]
            else:
                raise KeyError
        except KeyError:
            for sp in self._species:
                if sp.get_name() == rp or sp is rp:
                    return sp
            raise ChemistrySpeciesNotPresentError('Unrecognised species identifier passed: {}!'.format(rp))

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reaction(self, reaction):
        try:
            return self._reactions.at[reaction]
        except KeyError:
            raise ChemistryReactionNotPresentError('Unrecognised reaction identifier passed: {}!'.format(reaction))

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def num_species(self, disabled=False, special=False, protected=True):
        return len(self.get_species(disabled=disabled, special=special, protected=protected))

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def num_reactions(self):
        return len(self.get_reactions())

    @spec('C07', aspects='returns raises signature fields effects', fields='*')
    def set_protected_species(self, *args):
        args = list(args)
        try:
            self._protected_sp[args] = True
        except (ValueError, KeyError):
            protected_ids = [self.get_rp(arg).id for arg in args]
            self.set_protected_species(*protected_ids)

    @spec('C07')
    def _disable_recursively(self, species_ids=(), reactions_ids=()):
        dis_species_ids = [sp_id for sp_id in species_ids if self._enabled_sp.at[sp_id]]
        dis_reactions_ids = [r_id for r_id in reactions_ids if self._enabled_r.at[r_id]]
        if not len(dis_species_ids) and (not len(dis_reactions_ids)):
            return
        if len(set(species_ids) & set(self.get_protected_species().index)):
            raise ChemistryDisableError('Some of the species cannot be disabled!')
        self._enabled_sp[dis_species_ids] = False
        self._enabled_r[dis_reactions_ids] = False
        if self.requires_charge:
            pos_sp_mask = self.get_species_charge().values > 0
            if sum(pos_sp_mask) == 0:
                raise ChemistryDisableError('The last positive ion cannot be disabled!')
            elif sum(pos_sp_mask) == 1:
                last_ion_id = self.get_species()[pos_sp_mask].iat[0].id
                self._adhoc_protected_sp[last_ion_id] = True
        network_matrix = self.get_stoichiomatrix(disabled=True, special=True, method='lhs') + self.get_stoichiomatrix(disabled=True, special=True, method='rhs')
        disconnected_species_mask = network_matrix.loc[self._enabled_r, self._enabled_sp].sum(axis=0) == 0
        disconnected_species_ids = disconnected_species_mask[disconnected_species_mask].index
        disconnected_reactions_mask = network_matrix.loc[self._enabled_r, ~self._enabled_sp].sum(axis=1) > 0
        disconnected_reactions_ids = disconnected_reactions_mask[disconnected_reactions_mask].index
        if not len(disconnected_species_ids) and (not len(disconnected_reactions_ids)):
            return
        else:
            self._disable_recursively(species_ids=tuple(disconnected_species_ids), reactions_ids=tuple(disconnected_reactions_ids))

    @spec('C06 C07 C08', aspects='returns raises signature fields effects', fields='*')
    def disable(self, species=(), reactions=()):
        bu_enabled_reactions = self._enabled_r.copy()
        bu_enabled_species = self._enabled_sp.copy()
        bu_protected_species = self._protected_sp.copy()
        bu_adhoc_protected_species = self._adhoc_protected_sp.copy()
        dis_species_ids = [self.get_rp(rp).id for rp in species]
        dis_reactions_ids = [self.get_reaction(r).id for r in reactions]
        try:
            self._disable_recursively(species_ids=tuple(dis_species_ids), reactions_ids=tuple(dis_reactions_ids))
        except ChemistryDisableError:
            self._enabled_sp = bu_enabled_species
            self._enabled_r = bu_enabled_reactions
            self._protected_sp = bu_protected_species
            self._adhoc_protected_sp = bu_adhoc_protected_species
            raise ChemistryDisableError('Some of the species cannot be disabled!')
        self.assert_consistency()

    @spec('C06', aspects='returns raises signature fields effects', fields='*')
    def reset(self):
        self._enabled_sp = pd.Series(True, index=self._species.index)
        self._enabled_r = pd.Series(True, index=self._reactions.index)
        self._adhoc_protected_sp = pd.Series(False, index=self._species.index)

    @spec('C07', aspects='returns raises signature fields effects', fields='*')
    def get_protected_species(self):
        return self._species[np.array(self._protected_sp | self._adhoc_protected_sp)]

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_special_species(self):
        return self._species[np.array(self._special_sp)]

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_disabled_species(self):
        return self._species[~np.array(self._enabled_sp)]

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_disabled_reactions(self):
        return self._reactions[~np.array(self._enabled_r)]

    @spec('C12', aspects='returns raises signature fields effects', fields='*')
    def set_adhoc_species_attributes(self, attrib, rp, value):
        value = copy.deepcopy(value)
        sp_id = self.get_rp(rp).id
        if sp_id not in self._species.index:
            raise ChemistrySpeciesNotPresentError('Passed ID does not belong to any species in the chemistry!')
        if attrib not in self.adhoc_species_attributes:
            raise RPAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
        if type(value) not in RP.allowed_attribute_types[attrib]:
            raise RPAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
        if value is None:
            raise RPAttributeError('Adhoc value of the {} attribute cannot be None'.format(attrib))
        if attrib == 'stick_coef':
            value = float(value)
        if attrib == 'ret_coefs':
            species_names_pool = set(self.get_species_name(special=True).values)
            for ret_sp_name in value.keys():
                if ret_sp_name not in species_names_pool:
                    raise ChemistryConsistencyError('The return species incompatible with the chemistry species.')
            value = {ret_sp: float(value[ret_sp]) for ret_sp in value}
        self.adhoc_species_attributes[attrib].at[sp_id] = value
        self.assert_consistency()

    @spec('C12', aspects='returns raises signature fields effects', fields='*')
    def reset_adhoc_species_attributes(self, attrib):
        if attrib == 'all':
            for attr in self.adhoc_species_attributes:
                self.adhoc_species_attributes[attr] = pd.Series(dtype='O')
        else:
            if attrib not in self.adhoc_species_attributes:
                raise RPAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
            self.adhoc_species_attributes[attrib] = pd.Series(dtype='O')

    @spec('C12', aspects='returns raises signature fields effects', fields='*')
    def set_adhoc_reactions_attributes(self, attrib, r_id, value):
        value = copy.deepcopy(value)
        if r_id not in self._reactions.index:
            raise ChemistryReactionNotPresentError('Passed ID does not belong to any reaction in the chemistry!')
        if attrib not in self.adhoc_reactions_attributes:
            raise ReactionAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
        if type(value) not in Reaction.allowed_attribute_types[attrib]:
            raise ReactionAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
        if value is None:
            raise ReactionAttributeError('Adhoc value of the {} attribute cannot be None'.format(attrib))
        value = float(value)
        self.adhoc_reactions_attributes[attrib].at[r_id] = value

    @spec('C12', aspects='returns raises signature fields effects', fields='*')
    def reset_adhoc_reactions_attributes(self, attrib):
        if attrib == 'all':
            for attr in self.adhoc_reactions_attributes:
                self.adhoc_reactions_attributes[attr] = pd.Series(dtype='O')
        else:
            if attrib not in self.adhoc_reactions_attributes:
                raise ReactionAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
            self.adhoc_reactions_attributes[attrib] = pd.Series(dtype='O')

    @spec('C12')
    def _chemistry_attributes(self):
        species_ids = {'enabled': list(self._enabled_sp[self._enabled_sp.values].index), 'disabled': list(self._enabled_sp[~self._enabled_sp.values].index), 'protected': list(self._protected_sp[self._protected_sp.values].index), 'adhoc_protected': list(self._adhoc_protected_sp[self._adhoc_protected_sp.values].index)}
        reactions_ids = {'enabled': list(self._enabled_r[self._enabled_r.values].index), 'disabled': list(self._enabled_r[~self._enabled_r.values].index)}
        adhoc_species_attributes = []
        for attr in self.adhoc_species_attributes:
            for sp_i in self.adhoc_species_attributes[attr].index:
                attr_value = self.adhoc_species_attributes[attr].at[sp_i]
                attr_value = RP.allowed_attribute_types[attr][0](attr_value)
                adhoc_species_attributes.append([str(attr), int(sp_i), attr_value])
        adhoc_reactions_attributes = []
        for attr in self.adhoc_reactions_attributes:
            for r_i in self.adhoc_reactions_attributes[attr].index:
                attr_value = self.adhoc_reactions_attributes[attr].at[r_i]
                attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
                adhoc_reactions_attributes.append([str(attr), int(r_i), attr_value])
        xml_path = str(self.xml_path) if self.xml_path else None
        xml_hash = str(self.xml_hash(self.xml_path)) if self.xml_path else None
        chemistry_attributes = {'species_ids': species_ids, 'reactions_ids': reactions_ids, 'adhoc_species_attributes': adhoc_species_attributes, 'adhoc_reactions_attributes': adhoc_reactions_attributes, 'xml_path': xml_path, 'xml_hash': xml_hash}
        return chemistry_attributes

    @spec('C10', aspects='returns raises signature fields effects', fields='*')
    def dump_chemistry_attributes(self, yaml_path):
        with open(yaml_path, 'w') as stream:
            yaml.dump(self._chemistry_attributes(), stream=stream)

    @spec('C10', aspects='returns raises signature fields effects', fields='*')
    def load_chemistry_attributes(self, yaml_path, check_hash=True):
        if not os.path.isfile(yaml_path):
            raise ChemistryAttributeError('Invalid path to the chemistry attributes yaml file!')
        try:
            with open(yaml_path) as stream:
                attributes = yaml.load(stream=stream, Loader=yaml.FullLoader)
                enabled_sp_ids = attributes['species_ids']['enabled']
                disabled_sp_ids = attributes['species_ids']['disabled']
                protected_sp_ids = attributes['species_ids']['protected']
                try:
                    adhoc_protected_sp_ids = attributes['species_ids']['adhoc_protected']
                except KeyError:
                    warnings.warn('Ad-hoc protected species not found in the chemistry attributes! Assumed empty!')
                    adhoc_protected_sp_ids = []
                enabled_r_ids = attributes['reactions_ids']['enabled']
                disabled_r_ids = attributes['reactions_ids']['disabled']
                adhoc_species_attributes = attributes['adhoc_species_attributes']
                adhoc_reactions_attributes = attributes['adhoc_reactions_attributes']
                xml_path = attributes['xml_path']
                xml_hash = attributes['xml_hash']
        except KeyError:
            raise ChemistryAttributeError('Invalid yaml file!')
        if check_hash:
            if xml_path != (str(self.xml_path) if self.xml_path else None):
                raise ChemistryAttributeError('Chemistry xml input file path is not matching!')
            if xml_hash != self.xml_hash(self.xml_path):
                raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
        self.reset()
        self.reset_adhoc_species_attributes('all')
        for params_list in adhoc_species_attributes:
            self.set_adhoc_species_attributes(*params_list)
        self.reset_adhoc_reactions_attributes('all')
        for params_list in adhoc_reactions_attributes:
            self.set_adhoc_reactions_attributes(*params_list)
        self._enabled_sp[enabled_sp_ids] = True
        self._enabled_sp[disabled_sp_ids] = False
        self._protected_sp[:] = False
        self._protected_sp[protected_sp_ids] = True
        self._adhoc_protected_sp[:] = False
        self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
        self._enabled_r[enabled_r_ids] = True
        self._enabled_r[disabled_r_ids] = False
        self.assert_consistency()

    @spec('C10', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def xml_hash(xml_path):
        if xml_path is None:
            return None
        if not os.path.isfile(xml_path):
            raise ChemistryAttributeError('Invalid xml_path attribute!')
        with open(xml_path) as f:
            xml_hash = hashlib.md5(f.read().encode()).hexdigest()
        return xml_hash

    @spec('C10', aspects='returns raises signature fields effects', fields='*')
    def check_coherence(self, yaml_path):
        with open(yaml_path) as stream:
            file_attributes = yaml.load(stream=stream, Loader=yaml.FullLoader)
        return file_attributes == self._chemistry_attributes()

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species_mask(self, disabled, special, protected):
        if disabled:
            mask = np.ones(len(self._species), dtype=bool)
        else:
            mask = self._enabled_sp.values.copy()
        if not special:
            mask &= ~self._special_sp.values
        if not protected:
            mask &= ~(self._protected_sp | self._adhoc_protected_sp).values
        return mask

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species(self, disabled=False, special=False, protected=True):
        mask = self.get_species_mask(disabled=disabled, special=special, protected=protected)
        return self._species[mask]

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species_name(self, disabled=False, special=False, protected=True):
        species = self.get_species(disabled=disabled, special=special, protected=protected)
        return pd.Series([sp.get_name() for sp in species], index=species.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species_charge(self, disabled=False, special=False, protected=True):
        species = self.get_species(disabled=disabled, special=special, protected=protected)
        return pd.Series([sp.get_charge() for sp in species], index=species.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species_mass(self, disabled=False, special=False, protected=True):
        species = self.get_species(disabled=disabled, special=special, protected=protected)
        return pd.Series([sp.get_mass() for sp in species], index=species.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species_h_form(self, disabled=False, special=False, protected=True):
        species = self.get_species(disabled=disabled, special=special, protected=protected)
        return pd.Series([sp.get_h_form() for sp in species], index=species.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species_lj_epsilon(self, disabled=False, special=False, protected=True):
        species = self.get_species(disabled=disabled, special=special, protected=protected)
        return pd.Series([sp.get_lj_epsilon() for sp in species], index=species.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species_lj_sigma(self, disabled=False, special=False, protected=True):
        species = self.get_species(disabled=disabled, special=special, protected=protected)
        return pd.Series([sp.get_lj_sigma() for sp in species], index=species.index)

    @spec('C09 C13', aspects='returns raises signature fields effects', fields='*')
    def get_species_stick_coef(self, disabled=False, special=False, protected=True):
        species = self.get_species(disabled=disabled, special=special, protected=protected)
        species_stick_coef = pd.Series([sp.get_stick_coef() for sp in species], index=species.index)
        species_stick_coef.update(self.adhoc_species_attributes['stick_coef'])
        return species_stick_coef

    @spec('C13', aspects='returns raises signature fields effects', fields='*')
    def get_species_ret_coefs(self, disabled=False, special=False, protected=True):
        species = self.get_species(disabled=disabled, special=special, protected=protected)
        species_ret_coefs = pd.Series([copy.deepcopy(sp.get_ret_coefs()) for sp in species], index=species.index)
        for sp_id in self.adhoc_species_attributes['ret_coefs'].index.intersection(species.index):
            species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
        for sp_id in species_stick_coefs.index:
            if species_stick_coefs.at[sp_id] == 0.0:
                species_ret_coefs.at[sp_id] = {}
        if sum(~self._enabled_sp.values) > 0:
            species_names_pool = set(self.get_species_name(disabled=False, special=True).values)
            for sp_id in species_ret_coefs.index:
                ret_coefs = species_ret_coefs.at[sp_id]
                if ret_coefs is not None:
                    disabled_ret_species = []
                    for ret_sp_name in ret_coefs.keys():
                        if ret_sp_name not in species_names_pool:
                            disabled_ret_species.append(ret_sp_name)
                    for ret_sp_name in disabled_ret_species:
                        species_ret_coefs.at[sp_id].pop(ret_sp_name)
        return species_ret_coefs

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_species_id(self, disabled=False, special=False, protected=True):
        return np.array(self.get_species(disabled=disabled, special=special, protected=protected).index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_mask(self, disabled):
        if disabled:
            return np.ones(len(self._reactions), dtype=bool)
        else:
            return self._enabled_r.values.copy()

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions(self, disabled=False):
        mask = self.get_reactions_mask(disabled=disabled)
        return self._reactions[mask]

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_arrh_a(self, disabled=False, si_units=True):
        reactions = self.get_reactions(disabled=disabled)
        reactions_arrh_a = pd.Series([r.get_arrh_a(si_units=si_units) for r in reactions], index=reactions.index)
        adhoc_arrh_a = self.adhoc_reactions_attributes['arrh_a'].copy()
        if si_units:
            for r_id in adhoc_arrh_a.index:
                orig_unit = self.get_reaction(r_id).get_unit('arrh_a')
                adhoc_arrh_a[r_id] *= Reaction.si_conversion_factors['arrh_a'][orig_unit]
        reactions_arrh_a.update(adhoc_arrh_a)
        return reactions_arrh_a

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_arrh_b(self, disabled=False):
        reactions = self.get_reactions(disabled=disabled)
        return pd.Series([r.get_arrh_b() for r in reactions], index=reactions.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_arrh_c(self, disabled=False):
        reactions = self.get_reactions(disabled=disabled)
        return pd.Series([r.get_arrh_c() for r in reactions], index=reactions.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_el_en_loss(self, disabled=False):
        reactions = self.get_reactions(disabled=disabled)
        return pd.Series([r.get_el_en_loss() for r in reactions], index=reactions.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_ges_heat_contrib(self, disabled=False):
        reactions = self.get_reactions(disabled=disabled)
        return pd.Series([r.get_gas_heat_contrib() for r in reactions], index=reactions.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_elastic(self, disabled=False):
        reactions = self.get_reactions(disabled=disabled)
        return pd.Series([r.get_elastic() for r in reactions], index=reactions.index)

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_id(self, disabled=False):
        return np.array(self.get_reactions(disabled=disabled).index)

    @spec('C13', aspects='returns raises signature fields effects', fields='*')
    def get_return_matrix(self, disabled=False, special=False):
        species_ret_coefs = self.get_species_ret_coefs(disabled=disabled, special=special)
        ret_mat = pd.DataFrame(index=species_ret_coefs.index, columns=species_ret_coefs.index)
        for sp_id in species_ret_coefs.index:
            ret_coefs = species_ret_coefs[sp_id]
            if ret_coefs is not None:
                for return_sp_name in ret_coefs:
                    return_sp_id = self.get_rp(return_sp_name).id
                    ret_coef = ret_coefs[return_sp_name]
                    if return_sp_id in ret_mat.index:
                        ret_mat.at[return_sp_id, sp_id] = ret_coef
        ret_mat = ret_mat.fillna(0.0).astype(float)
        if special:
            special_ids = ret_mat.index[self._special_sp.loc[ret_mat.index].values]
            ret_mat.loc[special_ids, :] = np.nan
            ret_mat.loc[:, special_ids] = np.nan
        return ret_mat

    @spec('C02', aspects='returns raises signature fields effects', fields='*')
    def get_stoichiomatrix(self, disabled=False, special=False, method='net'):
        species = self.get_species(disabled=disabled, special=special, protected=True)
        reactions = self.get_reactions(disabled=disabled)
        stoichiomatrix = pd.DataFrame(columns=species.index, index=reactions.index)
        for r_id in reactions.index:
            reaction_stoich_coefs = reactions[r_id].get_stoich_coefs(method=method)
            for sp_id in reaction_stoich_coefs:
                if sp_id in stoichiomatrix.columns:
                    stoichiomatrix.at[r_id, sp_id] = reaction_stoich_coefs[sp_id]
        stoichiomatrix = stoichiomatrix.fillna(0).astype(int)
        return stoichiomatrix

    @spec('C02', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_stoich_coefs_electron(self, disabled=False, method='net'):
        electron_id = self.get_rp('e').id
        reactions = self.get_reactions(disabled=disabled)
        reactions_stoich_coefs_electron = pd.Series(index=reactions.index, dtype='i')
        for r_id in reactions.index:
            r = reactions[r_id]
            r_stoich_coefs = r.get_stoich_coefs(method=method)
            if electron_id in r_stoich_coefs:
                reactions_stoich_coefs_electron.at[r_id] = r_stoich_coefs[electron_id]
        reactions_stoich_coefs_electron = reactions_stoich_coefs_electron.fillna(0)
        return reactions_stoich_coefs_electron

    @spec('C02', aspects='returns raises signature fields effects', fields='*')
    def get_reactions_stoich_coefs_arbitrary(self, disabled=False, method='net'):
        reactions = self.get_reactions(disabled=disabled)
        try:
            arbitrary_id = self.get_rp('M').id
        except ChemistrySpeciesNotPresentError:
            return pd.Series(0, index=reactions.index).astype(int)
        reactions_stoich_coefs_arbitrary = pd.Series(index=reactions.index, dtype='i')
        for r_id in reactions.index:
            r = reactions[r_id]
            r_stoich_coefs = r.get_stoich_coefs(method=method)
            if arbitrary_id in r_stoich_coefs:
                reactions_stoich_coefs_arbitrary.at[r_id] = r_stoich_coefs[arbitrary_id]
        reactions_stoich_coefs_arbitrary = reactions_stoich_coefs_arbitrary.fillna(0)
        return reactions_stoich_coefs_arbitrary

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def species_attributes(self, disabled=True, special=True, printout=True, pretty_print=True, sort=False, units=False, ignored=('latex',)):
        attributes = [attr for attr in RP.default_attributes.keys() if attr not in ignored]
        species = self.get_species(disabled=disabled, special=special, protected=True)
        species_attributes = pd.DataFrame()
        for attr in attributes:
            try:
                column = getattr(self, 'get_species_{}'.format(attr))(disabled=disabled, special=special)
            except AttributeError:
                column = pd.Series([getattr(sp, 'get_{}'.format(attr))() for sp in species], index=species.index)
            species_attributes[attr] = column
            if units:
                try:
                    units_array = pd.Series([sp.get_unit(attr) for sp in species], index=species.index)
                    species_attributes['[{}]'.format(attr)] = units_array
                except RPAttributeError:
                    pass
        if sort:
            reactions_classifier = ReactionClassifier(species=species, reactions=[None])
            reactions_classifier.sort_species()
            sorted_index = [sp.id for sp in reactions_classifier.species]
            species_attributes = species_attributes.loc[sorted_index]
        if pretty_print:
            pp = pd.DataFrame(index=species_attributes.index, columns=species_attributes.columns, dtype='O')
            for i in pp.index:
                for c in pp.columns:
                    pp.at[i, c] = ColorValue(species_attributes.at[i, c])
            for sp_id in pp.index:
                for col in pp.columns:
                    if not self._enabled_sp[sp_id]:
                        pp.at[sp_id, col].set_color('RED')
                    elif not str(col).startswith('['):
                        saved_attrib = getattr(species.at[sp_id], '_{}'.format(col))
                        returned_attrib = pp.at[sp_id, col].value
                        equal = saved_attrib == returned_attrib
                        if not equal:
                            try:
                                equal = saved_attrib is None and np.isnan(returned_attrib)
                            except TypeError:
                                pass
                        if not equal:
                            try:
                                equal = float(saved_attrib) == float(returned_attrib)
                            except TypeError:
                                pass
                        if not equal and col == 'ret_coefs':
                            try:
                                equal = {key: float(saved_attrib[key]) for key in saved_attrib} == returned_attrib
                            except TypeError:
                                pass
                        if not equal:
                            pp.at[sp_id, col].set_color('BLUE')
                    else:
                        attr = str(col).strip('[]')
                        saved_unit = species.at[sp_id]._units[attr]
                        returned_unit = pp.at[sp_id, col].value
                        equal = saved_unit == returned_unit
                        if not equal:
                            pp.at[sp_id, col].set_color('BLUE')
                    val = pp.at[sp_id, col].value
                    subs = '...'
                    if val is None:
                        pp.at[sp_id, col].set_value(subs)
                    else:
                        try:
                            if np.isnan(val):
                                pp.at[sp_id, col].set_value(subs)
                        except TypeError:
                            pass
            pp.columns = [ColorValue(c) for c in pp.columns]
            species_attributes = pp
        if printout:
            print()
            with pd.option_context('display.max_rows', None, 'display.max_columns', None, 'display.width', None):
                print(species_attributes)
            print()
        return species_attributes

    @spec('C09', aspects='returns raises signature fields effects', fields='*')
    def reactions_attributes(self, disabled=True, printout=True, pretty_print=True, sort=False, classify=False, units=False, ignored=('latex',)):
        attributes = ['string'] + [attr for attr in Reaction.default_attributes.keys() if attr not in ignored]
        reactions = self.get_reactions(disabled=disabled)
        reactions_attributes = pd.DataFrame()
        for attr in attributes:
            if attr == 'arrh_a':
                column = self.get_reactions_arrh_a(disabled=disabled, si_units=False)
            else:
                try:
                    column = getattr(self, 'get_reactions_{}'.format(attr))(disabled=disabled)
                except AttributeError:
                    column = pd.Series([getattr(r, 'get_{}'.format(attr))() for r in reactions], index=reactions.index)
            reactions_attributes[attr] = column
            if units:
                try:
                    units_array = pd.Series([r.get_unit(attr) for r in reactions], index=reactions.index)
                    reactions_attributes['[{}]'.format(attr)] = units_array
                except ReactionAttributeError:
                    pass
        if sort or classify:
            species = self.get_species(disabled=disabled, special=True, protected=True)
            reactions_classifier = ReactionClassifier(species=species, reactions=reactions)
            if sort:
                reactions_classifier.sort_species()
                reactions_classifier.sort_reactions()
            if classify:
                classified_reactions = reactions_classifier.get_classified_reactions()
                first_col_width = 0
                sorted_index = []
                for i, r_type in enumerate(classified_reactions):
                    columns = reactions_attributes.columns
                    sorted_index.append('(C{})'.format(i + 1))
                    reactions_attributes.loc['(C{})'.format(i + 1)] = pd.Series([r_type] + [''] * (len(columns) - 1), index=columns)
                    if len(r_type) > first_col_width:
                        first_col_width = len(r_type)
                    for j, r_category in enumerate(classified_reactions[r_type]):
                        if r_category != 'None':
                            sorted_index.append('(C{}.{})'.format(i + 1, j + 1))
                            reactions_attributes.loc['(C{}.{})'.format(i + 1, j + 1)] = pd.Series([r_category] + [''] * (len(columns) - 1), index=columns)
                            if len(r_category) > first_col_width:
                                first_col_width = len(r_category)
                        sorted_index.extend([r.id for r in classified_reactions[r_type][r_category]])
                for r in reactions:
                    aligned_str = reactions_classifier.get_aligned_reaction_string(r)
                    reactions_attributes.loc[r.id, 'string'] = aligned_str.ljust(first_col_width)
                    if len(aligned_str) > first_col_width:
                        first_col_width = len(aligned_str)
                for i, r_type in enumerate(classified_reactions):
                    for j, r_category in enumerate(classified_reactions[r_type]):
                        reactions_attributes.loc['(C{}.{})'.format(i + 1, j + 1), 'string'] = r_category.ljust(first_col_width)
                reactions_attributes = reactions_attributes.loc[sorted_index]
            elif sort:
                sorted_index = [r.id for r in reactions_classifier.reactions]
                reactions_attributes = reactions_attributes.loc[sorted_index]
        if pretty_print:
            pp = pd.DataFrame(index=reactions_attributes.index, columns=reactions_attributes.columns, dtype='O')
            for i in pp.index:
                for c in pp.columns:
                    pp.loc[i, c] = ColorValue(reactions_attributes.loc[i, c])
            for r_id in reactions.index:
                for col in pp.columns:
                    if not self._enabled_r[r_id]:
                        pp.loc[r_id, col].set_color('RED')
                    elif col != 'string':
                        if not str(col).startswith('['):
                            saved_attrib = getattr(reactions.at[r_id], '_{}'.format(col))
                            returned_attrib = pp.loc[r_id, col].value
                            equal = saved_attrib == returned_attrib
                            if not equal:
                                try:
                                    equal = saved_attrib is None and np.isnan(returned_attrib)
                                except TypeError:
                                    pass
                            if not equal:
                                if saved_attrib in {'True', 'true', 'TRUE'}:
                                    equal = returned_attrib is True
                                elif saved_attrib in {'False', 'false', 'FALSE'}:
                                    equal = returned_attrib is False
                                else:
                                    try:
                                        equal = float(saved_attrib) == float(returned_attrib)
                                    except TypeError:
                                        pass
                            if not equal:
                                pp.loc[r_id, col].set_color('BLUE')
                        else:
                            attr = str(col).strip('[]')
                            saved_unit = reactions.at[r_id]._units[attr]
                            returned_unit = pp.loc[r_id, col].value
                            equal = saved_unit == returned_unit
                            if not equal:
                                pp.loc[r_id, col].set_color('BLUE')
                    val = pp.loc[r_id, col].value
                    subs = '...'
                    if val is None:
                        pp.loc[r_id, col].set_value(subs)
                    else:
                        try:
                            if np.isnan(val):
                                pp.loc[r_id, col].set_value(subs)
                        except TypeError:
                            pass
            if classify:
                for i, r_type in enumerate(classified_reactions):
                    pp.loc['(C{})'.format(i + 1), 'string'].set_color('YELLOW')
                    for j, r_category in enumerate(classified_reactions[r_type]):
                        if r_category != 'None':
                            pp.loc['(C{}.{})'.format(i + 1, j + 1), 'string'].set_color('MAGENTA')
            pp.columns = [ColorValue(c) for c in pp.columns]
            reactions_attributes = pp
        if printout:
            print()
            with pd.option_context('display.max_rows', None, 'display.max_columns', None, 'display.width', None, 'display.max_colwidth', 999):
                print(reactions_attributes)
            print()
        return reactions_attributes
