"""Reference semantics of plaschem/classification.py.  Parsed, never executed."""
from collections import OrderedDict
import numpy as np

@tables('K16')
class ReactionClassifier(object):
    classification_scheme = [['ELECTRON IMPACT COLLISIONS', ['elastic and momentum transfer', 'excitation', 'dissociative excitation', 'deexcitation', 'ionization', 'dissociative ionization', 'attachment', 'dissociative attachment', 'three body attachment', 'detachment', 'recombination', 'dissociative recombination', 'three body recombination', 'dissociation', 'other electron energy loss channels', 'unclassified electron impact collisions']], ['NEUTRAL - NEUTRAL COLLISIONS', ['elastic scattering', 'association', 'dissociation', 'excitation', 'dissociative excitation', 'collisional quenching', 'dissociative quenching', 'excitation transfer', 'ionization', 'dissociative ionization', 'associative ionization', 'penning ionization', 'interchange', 'stripping', 'unclassified neutral - neutral collisions']], ['POSITIVE ION - NEUTRAL COLLISIONS', ['resonant charge transfer', 'charge transfer', 'dissociative charge transfer', 'unclassified positive ion - neutral collisions']], ['NEGATIVE ION - NEUTRAL COLLISIONS', ['resonant charge transfer', 'charge transfer', 'detachment', 'associative detachment', 'unclassified negative ion - neutral collisions']], ['ION - ION COLLISIONS', ['neutralization', 'dissociative neutralization', 'unclassified ion - ion collisions']], ['THREE BODY COLLISIONS', ['None']], ['RADIATIVE DECAY', ['None']], ['UNCLASSIFIED COLLISIONS', ['None']]]
    elements_order = ['H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca', 'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y', 'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce', 'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir', 'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm', 'Bk', 'Cf', 'M']

    @spec('K16', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, species, reactions):
        self.species = list(species)
        self.reactions = list(reactions)
        self._classified_reactions = OrderedDict()
        self._alignments = dict()
        self._memo_species_index = dict()
        self._memo_reactions_classifications = dict()
        self._memo_reactions_sorted_species_names = dict()

    @spec('K16', aspects='returns raises signature fields effects', fields='*')
    def set_new_chemistry(self, species, reactions):
        self.species = list(species)
        self.reactions = list(reactions)
        self._classified_reactions = OrderedDict()
        self._alignments = dict()
        self._memo_species_index = dict()
        self._memo_reactions_classifications = dict()
        self._memo_reactions_sorted_species_names = dict()

    @spec('K16')
    def _get_species_sort_key(self, sp):
        score = 0.0
        if sp.get_name() == 'M':
            score = 0.1
            return 1 / score
        charge = sp.get_charge()
        bit_val = 10.0 - 1
        step = 1.0
        if charge > 0:
            bit_val -= step * charge
        score += bit_val
        bit_val = 100.0 - 1
        step = 10.0
        if charge < 0:
            bit_val += step * charge
        score += bit_val
        bit_val = 1000.0 - 1
        step = 100.0
        if sp.get_state() is not None:
            bit_val -= step
        score += bit_val
        elements = list(sp.get_atoms().keys())
        if len(elements) > 3:
            raise NotImplementedError('Only species with les than 4 elements are implemented for sorting!')
        if len(elements) == 3:
            bit_val = 10000.0 - 1
            step = 1000.0
            bit_val -= step * sp.get_atoms()[elements[2]]
            score += bit_val
            bit_val = 1000000.0 - 1
            step = 10000.0
            bit_val -= step * (self.elements_order.index(elements[2]) + 1)
            score += bit_val
        if len(elements) >= 2:
            bit_val = 10000000.0 - 1
            step = 1000000.0
            bit_val -= step * sp.get_atoms()[elements[1]]
            score += bit_val
            bit_val = 1000000000.0 - 1
            step = 10000000.0
            bit_val -= step * (self.elements_order.index(elements[1]) + 1)
            score += bit_val
        if len(elements) >= 1:
            bit_val = 10000000000.0 - 1
            step = 1000000000.0
            bit_val -= step * sp.get_atoms()[elements[0]]
            score += bit_val
            bit_val = 1000000000000.0 - 1
            step = 10000000000.0
            bit_val -= step * (self.elements_order.index(elements[0]) + 1)
            score += bit_val
        bit_val = 10000000000000.0 - 1
        step = 1000000000000.0
        bit_val -= step * len(elements)
        score += bit_val
        return 1 / score

    @spec('K16', aspects='returns raises signature fields effects', fields='*')
    def sort_species(self):
        self.species.sort(key=self._get_species_sort_key)
        self._classified_reactions = OrderedDict()
        self._memo_species_index = dict()
        self._alignments = dict()
        self._memo_reactions_sorted_species_names = dict()

    @spec('K16')
    def _species_index(self, sp):
        try:
            return self._memo_species_index[sp.id]
        except KeyError:
            self._memo_species_index[sp.id] = self.species.index(sp)
            return self._memo_species_index[sp.id]

    @spec('K16')
    def _get_reaction_sort_key(self, r):
        sorted_reactants = sorted(r.get_reactants(), key=self._species_index)
        sorted_products = sorted(r.get_products(), key=self._species_index)
        self._memo_reactions_sorted_species_names[r.id] = (tuple([sp.get_name() for sp in sorted_reactants]), tuple([sp.get_name() for sp in sorted_products]))
        return (tuple([self._species_index(sp) for sp in sorted_reactants]), tuple([self._species_index(sp) for sp in sorted_products]))

    @spec('K16', aspects='returns raises signature fields effects', fields='*')
    def sort_reactions(self):
        self.reactions.sort(key=self._get_reaction_sort_key)
        self._classified_reactions = OrderedDict()

    @spec('K16')
    def _init_classified_reactions_dict(self):
        self._classified_reactions = OrderedDict()
        for r_type, r_categories in self.classification_scheme:
            self._classified_reactions[r_type] = OrderedDict()
            for r_category in r_categories:
                self._classified_reactions[r_type][r_category] = list()

    @spec('K16')
    def _classify(self, reaction):
        try:
            return self._memo_reactions_classifications[reaction.id]
        except KeyError:
            pass
        r_type = 'UNCLASSIFIED COLLISIONS'
        r_category = 'None'
        reactants = reaction.get_reactants()
        products = reaction.get_products()
        charges_r = np.array([sp.get_charge() if sp.get_charge() is not None else 0 for sp in reactants])
        charges_p = np.array([sp.get_charge() if sp.get_charge() is not None else 0 for sp in products])
        stoich_coefficients = reaction.get_stoich_coefs(method='net')
        el_stoich_coef = 0.0
        if 'e' in reaction.get_rp_names_set(method='all'):
            el_id = [sp.id for sp in reactants + products if sp.get_name() == 'e'][0]
            el_stoich_coef = stoich_coefficients[el_id]
        if reaction.is_electron_process():
            r_type = 'ELECTRON IMPACT COLLISIONS'
            r_category = 'unclassified electron impact collisions'
            col_partners = [sp for sp in reactants if sp.get_name() != 'e']
            heavy_products = [sp for sp in products if sp.get_name() != 'e']
            col_partner = col_partners[0] if len(col_partners) else None
            if len(reactants) < 2 or col_partner is None:
                pass
            elif len(reactants) > 3:
                pass
            elif len(reactants) == 3:
                col_partners_charges = [sp.get_charge() for sp in col_partners if sp.get_charge() is not None]
                heavy_products_charges = [sp.get_charge() for sp in heavy_products if sp.get_charge() is not None]
                if not len(set([sp.strip_charge(sp.get_stateless()) for sp in col_partners]) - set([sp.strip_charge(sp.get_stateless()) for sp in heavy_products])):
                    if sum(col_partners_charges) > sum(heavy_products_charges):
                        if sum(col_partners_charges) > 0:
                            r_category = 'three body recombination'
                        elif sum(heavy_products_charges) < 0:
                            r_category = 'three body attachment'
            elif el_stoich_coef > 0:
                if len(col_partners) == len(heavy_products):
                    if col_partner.get_charge() == 0:
                        r_category = 'ionization'
                    elif col_partner.get_charge() < 0:
                        r_category = 'detachment'
                elif len(col_partners) < len(heavy_products):
                    if col_partner.get_charge() == 0:
                        r_category = 'dissociative ionization'
            elif el_stoich_coef == 0:
                if reaction.is_elastic_process():
                    r_category = 'elastic and momentum transfer'
                elif len(col_partners) == len(heavy_products):
                    heavy_product = heavy_products[0]
                    if col_partner.is_stateless() and (not heavy_product.is_stateless()):
                        r_category = 'excitation'
                    elif not col_partner.is_stateless() and heavy_product.is_stateless():
                        r_category = 'deexcitation'
                    elif not col_partner.is_stateless() and (not heavy_product.is_stateless()):
                        if reaction.get_el_en_loss() > 0:
                            r_category = 'excitation'
                        else:
                            r_category = 'deexcitation'
                    elif col_partner == heavy_product:
                        r_category = 'other electron energy loss channels'
                elif len(col_partners) < len(heavy_products):
                    products_states = [not sp.is_stateless() for sp in heavy_products]
                    if True in products_states:
                        r_category = 'dissociative excitation'
                    else:
                        r_category = 'dissociation'
            elif el_stoich_coef < 0:
                if len(col_partners) == len(heavy_products):
                    if col_partner.get_charge() == 0:
                        r_category = 'attachment'
                    elif col_partner.get_charge() > 0:
                        r_category = 'recombination'
                elif len(col_partners) < len(heavy_products):
                    if col_partner.get_charge() == 0:
                        r_category = 'dissociative attachment'
                    elif col_partner.get_charge() > 0:
                        r_category = 'dissociative recombination'
        elif len(reactants) == 3:
            r_type = 'THREE BODY COLLISIONS'
        elif len(reactants) == 1:
            if len(products) == 1:
                r_type = 'RADIATIVE DECAY'
        elif len(reactants) == 2:
            if (charges_r == 0).all():
                r_type = 'NEUTRAL - NEUTRAL COLLISIONS'
                r_category = 'unclassified neutral - neutral collisions'
                reactants_states = [not sp.is_stateless() for sp in reactants]
                products_states = [not sp.is_stateless() for sp in products]
                if reaction.is_elastic_process():
                    r_category = 'elastic scattering'
                elif len(reactants) > len(products):
                    r_category = 'association'
                elif el_stoich_coef > 0:
                    if len(reactants) == len(products) - el_stoich_coef:
                        if sum(reactants_states) > 0 and sum(products_states) == 0:
                            r_category = 'penning ionization'
                        elif sum(reactants_states) == sum(products_states) == 0:
                            r_category = 'ionization'
                    elif len(reactants) < len(products) - el_stoich_coef:
                        r_category = 'dissociative ionization'
                    elif len(reactants) > len(products) - el_stoich_coef:
                        r_category = 'associative ionization'
                elif el_stoich_coef == 0 and len(reactants) < len(products):
                    if len(set((sp.get_name() for sp in reactants)) & set((sp.get_name() for sp in products))):
                        if not charges_p.any():
                            if sum(reactants_states) == sum(products_states):
                                r_category = 'dissociation'
                            elif sum(reactants_states) < sum(products_states):
                                r_category = 'dissociative excitation'
                            elif sum(reactants_states) > sum(products_states):
                                r_category = 'dissociative quenching'
                elif len(reactants) == len(products):
                    if sum(reactants_states) < sum(products_states):
                        r_category = 'excitation'
                    elif sum(reactants_states) > sum(products_states):
                        r_category = 'collisional quenching'
                    elif sum(reactants_states) == sum(products_states) and sum(reactants_states) > 0:
                        if set([sp.get_stateless() for sp in reactants]) == set([sp.get_stateless() for sp in products]):
                            r_category = 'excitation transfer'
                    elif not len(set([sp.get_stateless() for sp in reactants]) - set([sp.get_stateless() for sp in reactants])):
                        r_category = 'interchange'
            elif ((charges_r > 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                r_type = 'POSITIVE ION - NEUTRAL COLLISIONS'
                r_category = 'unclassified positive ion - neutral collisions'
                r_ion = reactants[np.where(charges_r > 0)[0][0]]
                r_neutral = reactants[np.where(charges_r == 0)[0][0]]
                if len(products) == len(reactants) and (charges_p > 0).any() and (charges_p == 0).any():
                    p_ion = products[np.where(charges_p > 0)[0][0]]
                    p_neutral = products[np.where(charges_p == 0)[0][0]]
                    if r_ion.get_name().strip('+') == p_neutral.get_name() and r_neutral.get_name() == p_ion.get_name().strip('+'):
                        if r_neutral.get_name() == p_neutral.get_name() and r_ion.get_name() == p_ion.get_name():
                            r_category = 'resonant charge transfer'
                        else:
                            r_category = 'charge transfer'
                elif len(products) > len(reactants):
                    if r_neutral.get_name() + '+' in [sp.get_name() for sp in products]:
                        r_category = 'dissociative charge transfer'
            elif ((charges_r < 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                r_type = 'NEGATIVE ION - NEUTRAL COLLISIONS'
                r_category = 'unclassified negative ion - neutral collisions'
                r_ion = reactants[np.where(charges_r < 0)[0][0]]
                r_neutral = reactants[np.where(charges_r == 0)[0][0]]
                if el_stoich_coef > 0:
                    if len(reactants) == len(products) - el_stoich_coef:
                        r_category = 'detachment'
                    elif len(reactants) > len(products) - el_stoich_coef:
                        r_category = 'associative detachment'
                elif len(products) == len(reactants) and (charges_p < 0).any() and (charges_p == 0).any():
                    p_ion = products[np.where(charges_p < 0)[0][0]]
                    p_neutral = products[np.where(charges_p == 0)[0][0]]
                    if r_ion.get_name().strip('-') == p_neutral.get_name() and r_neutral.get_name() == p_ion.get_name().strip('-'):
                        if r_neutral.get_name() == p_neutral.get_name() and r_ion.get_name() == p_ion.get_name():
                            r_category = 'resonant charge transfer'
                        else:
                            r_category = 'charge transfer'
            elif ((charges_r < 0) + (charges_r > 0)).all():
                if (charges_p == 0).all():
                    r_type = 'ION - ION COLLISIONS'
                    r_category = 'unclassified ion - ion collisions'
                    if (charges_p == 0).all():
                        if len(reactants) == len(products):
                            r_category = 'neutralization'
                        elif len(reactants) < len(products):
                            r_category = 'dissociative neutralization'
        self._memo_reactions_classifications[reaction.id] = (r_type, r_category)
        return (r_type, r_category)

    @spec('K16', aspects='returns raises signature fields effects', fields='*')
    def get_classified_reactions(self):
        self._init_classified_reactions_dict()
        for r in self.reactions:
            r_type, r_category = self._classify(r)
            self._classified_reactions[r_type][r_category].append(r)
        keys_to_del = []
        for r_type in self._classified_reactions:
            for r_category in self._classified_reactions[r_type]:
                if not len(self._classified_reactions[r_type][r_category]):
                    keys_to_del.append((r_type, r_category))
        for r_type, r_category in keys_to_del:
            del self._classified_reactions[r_type][r_category]
        keys_to_del = []
        for r_type in self._classified_reactions:
            if not len(self._classified_reactions[r_type]):
                keys_to_del.append(r_type)
        for r_type in keys_to_del:
            del self._classified_reactions[r_type]
        return self._classified_reactions

    @spec('K16', aspects='returns raises signature fields effects', fields='*')
    def get_aligned_reaction_string(self, r):
        r_type, r_category = self._classify(r)
        try:
            max_reactants_names_lengths, max_products_names_lengths = self._alignments[r_type][r_category]
        except KeyError:
            max_reactants_names_lengths = []
            max_products_names_lengths = []
            for reaction in self._classified_reactions[r_type][r_category]:
                try:
                    sorted_reactants_names, sorted_products_names = self._memo_reactions_sorted_species_names[reaction.id]
                except KeyError:
                    sorted_reactants = sorted(reaction.get_reactants(), key=self._species_index)
                    sorted_products = sorted(reaction.get_products(), key=self._species_index)
                    sorted_reactants_names = [sp.get_name() for sp in sorted_reactants]
                    sorted_products_names = [sp.get_name() for sp in sorted_products]
                    self._memo_reactions_sorted_species_names[reaction.id] = (sorted_reactants_names, sorted_products_names)
                for i, reactant_name in enumerate(sorted_reactants_names):
                    try:
                        if max_reactants_names_lengths[i] < len(reactant_name):
                            max_reactants_names_lengths[i] = len(reactant_name)
                    except IndexError:
                        max_reactants_names_lengths.append(len(reactant_name))
                for i, product_name in enumerate(sorted_products_names):
                    try:
                        if max_products_names_lengths[i] < len(product_name):
                            max_products_names_lengths[i] = len(product_name)
                    except IndexError:
                        max_products_names_lengths.append(len(product_name))
            try:
                self._alignments[r_type][r_category] = (max_reactants_names_lengths, max_products_names_lengths)
            except KeyError:
                self._alignments[r_type] = dict()
                self._alignments[r_type][r_category] = (max_reactants_names_lengths, max_products_names_lengths)
        sorted_reactants_names, sorted_products_names = self._memo_reactions_sorted_species_names[r.id]
        lhs_str = ' + '.join(['{:<{}}'.format(sorted_reactants_names[i], max_len) if i < len(sorted_reactants_names) else '{:<{}}'.format('', max_len) for i, max_len in enumerate(max_reactants_names_lengths)])
        rhs_str = ' + '.join(['{:<{}}'.format(sorted_products_names[i], max_len) if i < len(sorted_products_names) else '{:<{}}'.format('', max_len) for i, max_len in enumerate(max_products_names_lengths)])
        r_str = ' > '.join([lhs_str, rhs_str])
        return r_str
