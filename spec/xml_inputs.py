"""Reference semantics of plaschem/xml_inputs.py.  Parsed, never executed."""
import os
import re
import sys
from collections import OrderedDict
from xml.dom import minidom
from xml.etree import ElementTree
if __package__ == '':
    plaschem_path = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
    if plaschem_path not in sys.path:
        print("Appending '{}' to the system path variable... ".format(plaschem_path))
        sys.path.append(plaschem_path)
from plaschem.species import RP
from plaschem.reactions import Reaction
from plaschem.classification import ReactionClassifier
from plaschem.exceptions import XmlError, RPAttributeError, ReactionAttributeError

@tables('X15')
class XmlBuilder(object):
    rp_attributes = list(RP.default_attributes.keys())
    r_attributes = list(Reaction.default_attributes.keys())

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def __init__(self):
        self.species_dict = {}
        self.species = []
        self.reactions = []

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def reset_chemistry(self):
        self.__init__()

    @spec('X15')
    def _get_rp_name_from_qdb(self, qdb_rp):
        stateless_str = self._get_rp_stateless_from_qdb(qdb_rp)
        states_str = self._get_rp_state_from_qdb(qdb_rp)
        name = '{}{}'.format(stateless_str, states_str)
        return name

    @spec('X15')
    @staticmethod
    def _get_rp_state_from_qdb(qdb_rp):
        state_strs = [state.state_str for state in qdb_rp.state.all()]
        states_str = ','.join(state_strs)
        if states_str.strip('*'):
            states_str = '({})'.format(states_str)
        return states_str

    @spec('X15')
    @staticmethod
    def _get_rp_stateless_from_qdb(qdb_rp):
        stateless_str = qdb_rp.ordinary_formula
        if stateless_str == 'e-':
            stateless_str = 'e'
        for charge in ['+', '-']:
            for ionisation_degree in [2, 3]:
                qdb_charge_suffix = charge + str(ionisation_degree)
                if stateless_str.endswith(qdb_charge_suffix):
                    stateless_str = stateless_str[:-len(qdb_charge_suffix)] + charge * ionisation_degree
        return stateless_str

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_rp_from_attributes(self, rp_id=None, rp_attributes=None, rp_units=None, **additional_attributes):
        if rp_id is None:
            rp_id = 999
        if rp_units is None:
            rp_units = {}
        if rp_attributes is None:
            all_attributes = {}
        else:
            all_attributes = rp_attributes.copy()
        all_attributes.update(additional_attributes)
        if all_attributes['name'] in self.species_dict:
            raise XmlError('Cannot add species {}, when it is already present!'.format(all_attributes['name']))
        rp_xml = ElementTree.Element('rp', attrib={'id': str(rp_id)})
        skip_attributes = {'ret_coefs'}
        for attribute in self.rp_attributes:
            if attribute in all_attributes and all_attributes[attribute] not in [None, '']:
                if attribute not in skip_attributes:
                    if attribute in rp_units:
                        attrib_xml = ElementTree.SubElement(rp_xml, attribute, attrib={'unit': rp_units[attribute]})
                    else:
                        attrib_xml = ElementTree.SubElement(rp_xml, attribute)
                    attrib_xml.text = str(all_attributes[attribute])
                elif attribute == 'ret_coefs':
                    ret_coefs_xml = ElementTree.SubElement(rp_xml, attribute)
                    for ret_sp in all_attributes[attribute]:
                        ret_sp_xml = ElementTree.SubElement(ret_coefs_xml, 'r', attrib={'rp': ret_sp})
                        ret_sp_xml.text = str(all_attributes[attribute][ret_sp])
        self.species_dict[all_attributes['name']] = rp_xml
        self.species.append(rp_xml)

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_rp_from_instance(self, rp):
        rp_attributes = {}
        for attrib in self.rp_attributes:
            try:
                rp_attributes[attrib] = getattr(rp, '_{}'.format(attrib))
            except AttributeError:
                pass
        rp_units = {}
        for attrib in self.rp_attributes:
            try:
                rp_units[attrib] = rp.get_unit(attrib)
            except RPAttributeError:
                pass
        self.add_rp_from_attributes(rp_id=rp.id, rp_attributes=rp_attributes, rp_units=rp_units)

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_rp_from_qdb(self, qdb_rp):
        rp_attributes = {}
        rp_units = {}
        name = self._get_rp_name_from_qdb(qdb_rp)
        rp_attributes['name'] = name
        if len(qdb_rp.state.all()):
            rp_attributes['stateless'] = self._get_rp_stateless_from_qdb(qdb_rp)
            rp_attributes['state'] = self._get_rp_state_from_qdb(qdb_rp)
        rp_attributes['mass'] = qdb_rp.mass
        rp_units['mass'] = 'amu'
        if qdb_rp.charge != 0:
            rp_attributes['charge'] = qdb_rp.charge
            rp_units['charge'] = 'e'
        if qdb_rp.hform:
            rp_attributes['h_form'] = qdb_rp.hform
            rp_units['h_form'] = 'eV'
        if qdb_rp.lj_epsilon:
            rp_attributes['lj_epsilon'] = qdb_rp.lj_epsilon
            rp_units['lj_epsilon'] = 'K'
        if qdb_rp.lj_sigma:
            rp_attributes['lj_sigma'] = qdb_rp.lj_sigma
            rp_units['lj_sigma'] = 'A'
        if qdb_rp.hpem:
            rp_attributes['hpem_name'] = qdb_rp.hpem
        rp_attributes['qdb_id'] = qdb_rp.pk
        self.add_rp_from_attributes(rp_id=qdb_rp.pk, rp_attributes=rp_attributes, rp_units=rp_units)

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_reaction_from_attributes(self, reactants_names, products_names, r_id=None, r_attributes=None, r_units=None, **additional_attributes):
        if r_id is None:
            r_id = 999
        if r_units is None:
            r_units = {}
        if r_attributes is None:
            all_attributes = {}
        else:
            all_attributes = r_attributes.copy()
        all_attributes.update(additional_attributes)
        for rp_name in set(reactants_names + products_names):
            if rp_name not in self.species_dict:
                raise XmlError('Some of the reactants or products are not present in species!')
        r_xml = ElementTree.Element('reaction', attrib={'id': str(r_id)})
        ElementTree.SubElement(r_xml, 'reactants').text = ', '.join(reactants_names)
        ElementTree.SubElement(r_xml, 'products').text = ', '.join(products_names)
        for attribute in self.r_attributes:
            if attribute in all_attributes and all_attributes[attribute] not in [None, '']:
                if attribute in r_units:
                    attrib_xml = ElementTree.SubElement(r_xml, attribute, attrib={'unit': r_units[attribute]})
                else:
                    attrib_xml = ElementTree.SubElement(r_xml, attribute)
                attrib_xml.text = str(all_attributes[attribute])
        self.reactions.append(r_xml)

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_reaction_from_instance(self, r):
        for rp in r.get_reactants() + r.get_products():
            name = rp.get_name()
            if name not in self.species_dict:
                self.add_rp_from_instance(rp)
        reactants_names = tuple([rp.get_name() for rp in r.get_reactants()])
        products_names = tuple([rp.get_name() for rp in r.get_products()])
        r_attributes = {}
        for attrib in self.r_attributes:
            try:
                r_attributes[attrib] = getattr(r, '_{}'.format(attrib))
            except AttributeError:
                pass
        r_units = {}
        for attrib in self.r_attributes:
            try:
                r_units[attrib] = r.get_unit(attrib)
            except ReactionAttributeError:
                pass
        self.add_reaction_from_attributes(reactants_names, products_names, r_id=r.id, r_attributes=r_attributes, r_units=r_units)

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_reaction_from_qdb(self, qdb_r):
        parent_reactions = qdb_r.parent_reaction.all()
        for resolved_reaction in parent_reactions:
            self.add_reaction_from_qdb(resolved_reaction)
        if len(parent_reactions):
            return
        child_reactions = qdb_r.child_reactions.all()
        if len(child_reactions) > 1:
            raise XmlError('The reaction R{} has more than one child reaction!'.format(qdb_r.pk))
        master_reaction = child_reactions[0] if len(child_reactions) else qdb_r
        for qdb_rp in master_reaction.get_all_rps():
            name = self._get_rp_name_from_qdb(qdb_rp)
            if name not in self.species_dict:
                self.add_rp_from_qdb(qdb_rp)
        reactants_names = tuple([self._get_rp_name_from_qdb(qdb_rp) for qdb_rp in master_reaction.reactants.all()])
        products_names = tuple([self._get_rp_name_from_qdb(qdb_rp) for qdb_rp in master_reaction.products.all()])
        qdb_datasets = qdb_r.reactiondataset_set.all()
        if len(qdb_datasets) == 0:
            raise XmlError('The reaction R{} does not have any datasets attached'.format(qdb_r.pk))
        elif len(qdb_datasets) == 1:
            qdb_ds = qdb_datasets[0]
        elif 'e' in reactants_names:
            qdb_xsec_datasets = qdb_datasets.filter(dataset_type__pk=2)
            if qdb_xsec_datasets.count() != 0:
                qdb_ds = qdb_xsec_datasets[0]
            else:
                qdb_ds = qdb_datasets[0]
        else:
            qdb_nonxsec_datasets = qdb_datasets.filter(dataset_type__pk__in={1, 3})
            if qdb_nonxsec_datasets.count() != 0:
                qdb_ds = qdb_nonxsec_datasets[0]
            else:
                qdb_ds = qdb_datasets[0]
        r_attributes = {}
        r_units = {}
        if qdb_ds.is_xsec():
            (arrh_a, _), (arrh_b, _), (arrh_c, _) = qdb_ds.fit_arrhenius()
            arrh_c_unit = 'eV'
            num_reactants = len(reactants_names)
            if num_reactants == 2:
                arrh_a_unit = 'cm3.s-1'
            elif num_reactants == 3:
                arrh_a_unit = 'cm6.s-1'
            else:
                raise XmlError('Arrhenius formula can only be fitted for reaction with 2-3 reactants.')
        elif qdb_ds.is_arrhenius():
            params_a = qdb_ds.parameter_set.filter(meta__name__startswith='A')
            if not len(params_a):
                raise XmlError('Reaction R{} is missing arrhenius parameter A'.format(qdb_r.pk))
            params_b = qdb_ds.parameter_set.filter(meta__name='n')
            if not len(params_b):
                raise XmlError('Reaction R{} is missing arrhenius parameter n'.format(qdb_r.pk))
            params_c = qdb_ds.parameter_set.filter(meta__name__endswith='E')
            if not len(params_c):
                raise XmlError('Reaction R{} is missing arrhenius parameter E'.format(qdb_r.pk))
            arrh_a = float(params_a[0].value)
            arrh_a_unit = str(params_a[0].meta.units)
            arrh_b = float(params_b[0].value)
            arrh_c = float(params_c[0].value)
            arrh_c_unit = str(params_c[0].meta.units)
        else:
            raise XmlError('Reaction dataset D{} does not have xsec or arrh data!'.format(qdb_ds.pk))
        r_attributes['arrh_a'] = arrh_a
        r_units['arrh_a'] = arrh_a_unit
        if arrh_b:
            r_attributes['arrh_b'] = arrh_b
        if arrh_c:
            r_attributes['arrh_c'] = arrh_c
            r_units['arrh_c'] = arrh_c_unit
        el_en_loss = 0.0
        electron_process = 'e' in reactants_names
        elastic_process = sorted(reactants_names) == sorted(products_names)
        if electron_process and (not elastic_process) and ('e' in products_names):
            if qdb_ds.is_arrhenius():
                el_en_loss = max(0, arrh_c)
            elif qdb_ds.is_xsec():
                if qdb_ds.threshold is not None:
                    el_en_loss = float(qdb_ds.threshold)
                else:
                    el_en_loss = qdb_ds.get_thresh()
            else:
                raise XmlError('DataSet D{} is neither arrhenius, nor xsec!'.format(qdb_ds.pk))
        if el_en_loss:
            r_attributes['el_en_loss'] = el_en_loss
            r_units['el_en_loss'] = 'eV'
        if qdb_ds.entry_id is not None and qdb_ds.entry_id < 0:
            r_attributes['special_number'] = int(qdb_ds.entry_id)
        r_attributes['qdb_r_id'] = int(qdb_r.pk)
        r_attributes['qdb_ds_id'] = int(qdb_ds.pk)
        for source in qdb_ds.citations.all():
            if source.doi not in {None, 'None'}:
                r_attributes['doi'] = str(source.doi)
                break
        if master_reaction.pk != qdb_r.pk:
            resolved_reaction_str = '{} > {}'.format(' + '.join([self._get_rp_name_from_qdb(rp) for rp in qdb_r.reactants.all()]), ' + '.join([self._get_rp_name_from_qdb(rp) for rp in qdb_r.products.all()]))
            r_attributes['comments'] = resolved_reaction_str
        self.add_reaction_from_attributes(reactants_names, products_names, qdb_r.pk, r_attributes, r_units)

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_chemistry_from_instance(self, ch):
        sp_ids = list(ch.get_species_id(special=True))
        for r in ch.get_reactions():
            self.add_reaction_from_instance(r)
        self.species.sort(key=lambda x: sp_ids.index(int(x.attrib['id'])))

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_chemistry_from_xml(self, xml_path):
        root_xml = ElementTree.parse(xml_path).getroot()
        species_xml = root_xml.find('species')
        reactions_xml = root_xml.find('reactions')
        for rp_xml in species_xml.iter('rp'):
            rp_name = rp_xml.find('name').text
            if rp_name not in self.species_dict:
                self.species_dict[rp_name] = rp_xml
                self.species.append(rp_xml)
        for r_xml in reactions_xml.iter('reaction'):
            self.reactions.append(r_xml)

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_chemistry_from_qdb(self, qdb_ch):
        qdb_reactions = qdb_ch.get_reactions()
        for qdb_r in qdb_reactions:
            self.add_reaction_from_qdb(qdb_r)

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def add_chemistry_from_hpem(self, dat_path, skip_special_numbers=True):

        def rename(hpem_name):
            rename_map = {'E': 'e'}
            return rename_map.get(hpem_name, hpem_name).replace('^', '+')
        with open(dat_path, 'r') as dat_file:
            dat_lines = [line.strip() for line in dat_file.readlines()]
        sep_index = dat_lines.index('*')
        species_lines = dat_lines[:sep_index]
        reactions_lines = dat_lines[sep_index + 1:]
        single_val = '\\s*(\\S+)\\s*'
        single_val_ws = '(.*)'
        species_dict = OrderedDict()
        pattern_sp = re.compile('^{sv}:{sv};{sv}&{sv}]{sv}\\[{sv}@{sv}!{svs}$'.format(sv=single_val, svs=single_val_ws))
        sp_columns = ['name', 'charge', 'mass', 'stick_coef', '_', 'return_coefficient', 'return_species', 'comments']
        sp_types = [rename, int, float, float, int, float, rename, str.strip]
        for line in species_lines:
            sp_dict = {sp_col: sp_type(val) for sp_col, sp_type, val in zip(sp_columns, sp_types, pattern_sp.findall(line)[0])}
            if sp_dict['stick_coef']:
                sp_dict['ret_coefs'] = {sp_dict['return_species']: sp_dict['return_coefficient']}
            species_dict[sp_dict['name']] = sp_dict
        reactions = []
        species_names_present = set()
        arrh_a_units = {1: 's-1', 2: 'cm3.s-1', 3: 'cm6.s-1'}
        arrh_c_units = {True: 'eV', False: 'K'}
        pattern_r = re.compile('^{svs}>{svs}:{sv};{sv}&{sv}]{sv}\\[{sv}!{svs}$'.format(sv=single_val, svs=single_val_ws))
        r_columns = ['reactants', 'products', 'arrh_a', 'arrh_b', 'arrh_c', 'gas_heat_contrib', 'special_number', 'comments']
        r_types = [str.strip, str.strip, float, float, float, float, int, str.strip]
        for line in reactions_lines:
            r_dict = {r_col: r_type(val) for r_col, r_type, val in zip(r_columns, r_types, pattern_r.findall(line)[0])}
            r_dict['reactants'] = [rename(sp) for sp in r_dict['reactants'].split(' + ')]
            r_dict['products'] = [rename(sp) for sp in r_dict['products'].split(' + ')]
            if not skip_special_numbers or (skip_special_numbers and r_dict['special_number'] in {-1, 1}):
                for sp in r_dict['reactants'] + r_dict['products']:
                    species_names_present.add(sp)
                reactions.append(r_dict)
            else:
                print('WARNING: Reaction {} has a special number defined and therefore is IGNORED (not added)!'.format(' + '.join(r_dict['reactants']) + ' > ' + ' + '.join(r_dict['products'])))
        sp_units = {'charge': 'e', 'mass': 'amu'}
        for sp, sp_dict in species_dict.items():
            if sp in species_names_present:
                self.add_rp_from_attributes(rp_attributes=sp_dict, rp_units=sp_units)
            else:
                print('WARNING: Species {} is not present in the reactions and is IGNORED (not added)'.format(sp))
        r_units = {'gas_heat_contrib': 'eV', 'arrh_a': 'N/A', 'arrh_c': 'N/A'}
        for r_dict in reactions:
            r_units.update({'arrh_a': arrh_a_units[len(r_dict['reactants'])], 'arrh_c': arrh_c_units['e' in r_dict['reactants']]})
            self.add_reaction_from_attributes(reactants_names=r_dict['reactants'], products_names=r_dict['products'], r_attributes=r_dict, r_units=r_units)

    @spec('X14', aspects='returns raises signature fields effects', fields='*')
    def sort_elements(self):
        rp_ids = [sp.attrib['id'] for sp in self.species]
        r_ids = [r.attrib['id'] for r in self.reactions]
        species_ids_reassigned, reactions_ids_reassigned = (False, False)
        if len(rp_ids) != len(set(rp_ids)):
            self.assign_species_ids()
            species_ids_reassigned = True
        if len(r_ids) != len(set(r_ids)):
            self.assign_reactions_ids()
            reactions_ids_reassigned = True
        species, reactions = XmlParser().get_species_and_reactions_from_xml_elements(self.species, self.reactions)
        sorting_class = ReactionClassifier(species, reactions)
        sorting_class.sort_species()
        sorted_species = sorting_class.species
        sorted_species_ids = [str(sp.id) for sp in sorted_species]
        sorting_class.sort_reactions()
        classified_reactions = sorting_class.get_classified_reactions()
        sorted_reactions = []
        for r_type in classified_reactions:
            for r_category in classified_reactions[r_type]:
                sorted_reactions.extend(classified_reactions[r_type][r_category])
        sorted_reactions_ids = [str(r.id) for r in sorted_reactions]
        self.species.sort(key=lambda x: sorted_species_ids.index(x.attrib['id']))
        self.reactions.sort(key=lambda x: sorted_reactions_ids.index(x.attrib['id']))
        if species_ids_reassigned:
            self.assign_species_ids()
        if reactions_ids_reassigned:
            self.assign_reactions_ids()

    @spec('X14', aspects='returns raises signature fields effects', fields='*')
    def assign_species_ids(self):
        special_ids = {'e': 0, 'M': 999}
        next_id = 1
        for rp_xml in self.species:
            rp_name = rp_xml.find('name').text
            if rp_name in special_ids:
                new_id = special_ids[rp_name]
            else:
                new_id = next_id
                next_id += 1
            rp_xml.attrib['id'] = str(new_id)

    @spec('X14', aspects='returns raises signature fields effects', fields='*')
    def assign_reactions_ids(self):
        for i, r_xml in enumerate(self.reactions):
            r_id = i + 1
            r_xml.attrib['id'] = str(r_id)

    @spec('X14', aspects='returns raises signature fields effects', fields='*')
    def assign_ids(self):
        self.assign_species_ids()
        self.assign_reactions_ids()

    @spec('X14', aspects='returns raises signature fields effects', fields='*')
    def dump_xml(self, path, overwrite=False):
        if os.path.isfile(path=path) and (not overwrite):
            raise XmlError('The xml file {} already exists! You may wish to specify the overwrite parameter!'.format(path))
        root_xml = ElementTree.Element('chemistry')
        meta_xml = ElementTree.SubElement(root_xml, 'meta')
        ElementTree.SubElement(meta_xml, 'comments').text = ''
        species_xml = ElementTree.SubElement(root_xml, 'species')
        reactions_xml = ElementTree.SubElement(root_xml, 'reactions')
        for rp_element in self.species:
            species_xml.append(rp_element)
        for r_element in self.reactions:
            reactions_xml.append(r_element)
        xmlstr = minidom.parseString(ElementTree.tostring(root_xml, encoding='utf-8')).toprettyxml(indent=4 * ' ')
        with open(path, 'w') as f:
            f.write(xmlstr)

class XmlParser(object):

    @spec('X15', aspects='returns raises signature fields effects', fields='*')
    def __init__(self):
        pass

    @spec('X14', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_species_and_reactions_from_xml_elements(rp_xml_elements, reaction_xml_elements):
        species = []
        species_dict = dict()
        for rp_xml in rp_xml_elements:
            rp_id = int(rp_xml.attrib['id'])
            skip_tags = {'ret_coefs'}
            attributes = {element.tag: element.text for element in list(rp_xml) if element.tag not in skip_tags}
            ret_coefs_xml = rp_xml.find('ret_coefs')
            if ret_coefs_xml is not None:
                ret_coefs = {r_xml.attrib['rp']: r_xml.text for r_xml in ret_coefs_xml.iter('r')}
                attributes['ret_coefs'] = ret_coefs
            units = {element.tag: element.attrib['unit'] for element in list(rp_xml) if 'unit' in element.attrib}
            rp = RP(rp_id=rp_id, attributes=attributes, units=units)
            species_dict[rp.get_name()] = rp
            species.append(rp)
        reactions = []
        for reaction_xml in reaction_xml_elements:
            r_id = int(reaction_xml.attrib['id'])
            skip_tags = {'reactants', 'products'}
            attributes = {element.tag: element.text for element in list(reaction_xml) if element.tag not in skip_tags}
            delim = ',(?![^()]*\\))'
            reactants_names = [sp_name.strip() for sp_name in re.split(delim, reaction_xml.find('reactants').text)]
            products_names = [sp_name.strip() for sp_name in re.split(delim, reaction_xml.find('products').text)]
            reactants = [species_dict[sp_name] for sp_name in reactants_names]
            products = [species_dict[sp_name] for sp_name in products_names]
            units = {element.tag: element.attrib['unit'] for element in list(reaction_xml) if 'unit' in element.attrib}
            reaction = Reaction(r_id=r_id, reactants=reactants, products=products, attributes=attributes, units=units)
            reactions.append(reaction)
        return (species, reactions)

    @spec('X14', aspects='returns raises signature fields effects', fields='*')
    def get_species_and_reactions(self, xml_path):
        if not os.path.isfile(xml_path):
            raise XmlError('Invalid XML file path: {}!'.format(xml_path))
        tree = ElementTree.parse(xml_path)
        root = tree.getroot()
        species_xml = root.find('species')
        rp_xml_elements = species_xml.iter('rp')
        reactions_xml = root.find('reactions')
        reaction_xml_elements = reactions_xml.iter('reaction')
        species, reactions = self.get_species_and_reactions_from_xml_elements(rp_xml_elements, reaction_xml_elements)
        return (species, reactions)
