From fff9dbeffb77ccbfeb52c78a16dc2802f5a2d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 01/35] fix: keep get_species_ret_coefs within the requested
 species

Ad-hoc return coefficients of disabled (or filtered-out) species and zero
sticking coefficients of protected species enlarged the returned series.
---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7af45a1..0894ed2 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -722,10 +722,10 @@ class Chemistry(object):
         species = self.get_species(disabled=disabled, special=special, protected=protected)
         species_ret_coefs = pd.Series([copy.deepcopy(sp.get_ret_coefs()) for sp in species], index=species.index)
         # update with the adhoc ret_coefs:
-        for sp_id in self.adhoc_species_attributes['ret_coefs'].index:
+        for sp_id in self.adhoc_species_attributes['ret_coefs'].index.intersection(species.index):
             species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
         # override for all species whose stick_coefs are 0.:
-        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special)
+        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
         for sp_id in species_stick_coefs.index:
             if species_stick_coefs.at[sp_id] == 0.:
                 species_ret_coefs.at[sp_id] = {}
-- 
2.43.0


From 05e23d55b7026aacb6222e81b1b1365b8742ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 02/35] fix: Chemistry.copy keeps the type of a subclass

NeutralChemistry.copy() raised ChemistryConsistencyError.
---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 0894ed2..c79455e 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -96,7 +96,7 @@ class Chemistry(object):
         will still be sharing species and reactions objects.
         :return: (self instance)
         """
-        self_copy = Chemistry(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
+        self_copy = type(self)(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
 
         # ENFORCE IDENTICAL STATE:
         # masks:
-- 
2.43.0


From 1ca25b4d4b8eebf0fc4e181c0067fdf1a5250674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 03/35] fix: load_chemistry_attributes accepts its own dump
 with a pathlib xml_path

---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index c79455e..19bb413 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -555,7 +555,7 @@ class Chemistry(object):
         except KeyError:
             raise ChemistryAttributeError('Invalid yaml file!')
         if check_hash:
-            if xml_path != self.xml_path:
+            if xml_path != (str(self.xml_path) if self.xml_path else None):
                 raise ChemistryAttributeError('Chemistry xml input file path is not matching!')
             if xml_hash != self.xml_hash(self.xml_path):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
-- 
2.43.0


From bf072857b9db545fe253c9d987654c3e0a1c1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 04/35] fix: restore ad-hoc attributes before the masks in
 load_chemistry_attributes

A dump with ad-hoc return coefficients naming a disabled species could not
be loaded back.
---
 plaschem/chemistry.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 19bb413..250947f 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -561,6 +561,14 @@ class Chemistry(object):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
         # all appears valid, so can start restoring the attributes:
+        # ad-hoc attributes (with nothing disabled, as they might refer to species which are disabled in the dump):
+        self.reset()
+        self.reset_adhoc_species_attributes('all')
+        for params_list in adhoc_species_attributes:
+            self.set_adhoc_species_attributes(*params_list)
+        self.reset_adhoc_reactions_attributes('all')
+        for params_list in adhoc_reactions_attributes:
+            self.set_adhoc_reactions_attributes(*params_list)
         # masks:
         self._enabled_sp[enabled_sp_ids] = True
         self._enabled_sp[disabled_sp_ids] = False
@@ -570,13 +578,6 @@ class Chemistry(object):
         self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
         self._enabled_r[enabled_r_ids] = True
         self._enabled_r[disabled_r_ids] = False
-        # ad-hoc attributes:
-        self.reset_adhoc_species_attributes('all')
-        for params_list in adhoc_species_attributes:
-            self.set_adhoc_species_attributes(*params_list)
-        self.reset_adhoc_reactions_attributes('all')
-        for params_list in adhoc_reactions_attributes:
-            self.set_adhoc_reactions_attributes(*params_list)
 
         # assert consistency to be on a safe side:
         self.assert_consistency()
-- 
2.43.0


From 2c9ba45d4009e1b4ad31db228500aa48fee6a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 05/35] fix: keep the return matrix square and support
 special=True

Returned special species added a row to the matrix, and special=True raised
(or misaligned the mask) instead of filling in NaN.
---
 plaschem/chemistry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 250947f..9732720 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -862,12 +862,14 @@ class Chemistry(object):
                 for return_sp_name in ret_coefs:
                     return_sp_id = self.get_rp(return_sp_name).id
                     ret_coef = ret_coefs[return_sp_name]
-                    ret_mat.at[return_sp_id, sp_id] = ret_coef
+                    if return_sp_id in ret_mat.index:
+                        ret_mat.at[return_sp_id, sp_id] = ret_coef
         ret_mat = ret_mat.fillna(0.)
 
         if special:  # fill in the special species values back to NaN's...
-            ret_mat.at[self._special_sp, :] = np.nan
-            ret_mat.at[:, self._special_sp] = np.nan
+            special_ids = ret_mat.index[self._special_sp.loc[ret_mat.index].values]
+            ret_mat.loc[special_ids, :] = np.nan
+            ret_mat.loc[:, special_ids] = np.nan
 
         return ret_mat
 
-- 
2.43.0


From a69a4545c51984a85ee659b7c079ec6d6e3c72f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 06/35] fix: convert ad-hoc stick_coef and arrh_a values to
 float

Strings and None passed the type check and broke the getters and the dump.
---
 plaschem/chemistry.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 9732720..20bd4e6 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -370,8 +370,10 @@ class Chemistry(object):
             raise RPAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
         if type(value) not in RP.allowed_attribute_types[attrib]:
             raise RPAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
-        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
+        if value is None:
+            raise RPAttributeError('Adhoc value of the {} attribute cannot be None'.format(attrib))
+        # need to convert numbers explicitly to float, otherwise the yaml dump will be a mess!
+        if attrib == 'stick_coef':
             value = float(value)
         if attrib == 'ret_coefs':
             # verify the consistency of the chemistry with new return species
@@ -422,9 +424,10 @@ class Chemistry(object):
             raise ReactionAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
         if type(value) not in Reaction.allowed_attribute_types[attrib]:
             raise ReactionAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
-        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
-            value = float(value)
+        if value is None:
+            raise ReactionAttributeError('Adhoc value of the {} attribute cannot be None'.format(attrib))
+        # need to convert numbers explicitly to float, otherwise the yaml dump will be a mess!
+        value = float(value)
         self.adhoc_reactions_attributes[attrib].at[r_id] = value
 
     def reset_adhoc_reactions_attributes(self, attrib):
-- 
2.43.0


From f5e46964328959cc2ddd96cab63f15d64e48d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 07/35] fix: return matrix is numeric also with special=True

The object dtype broke ChemistryGraph.distribute_weights.
---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 20bd4e6..e46d09a 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -867,7 +867,7 @@ class Chemistry(object):
                     ret_coef = ret_coefs[return_sp_name]
                     if return_sp_id in ret_mat.index:
                         ret_mat.at[return_sp_id, sp_id] = ret_coef
-        ret_mat = ret_mat.fillna(0.)
+        ret_mat = ret_mat.fillna(0.).astype(float)
 
         if special:  # fill in the special species values back to NaN's...
             special_ids = ret_mat.index[self._special_sp.loc[ret_mat.index].values]
-- 
2.43.0


From 5b826bf49b5be2aa2411c90ab81fc861f68de076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 08/35] fix: keep the integer zeros of numbers in the LaTeX
 output

rstrip('.0') turned '300.0' into '3' and '0.00' into an empty string.
---
 plaschem/latex.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/plaschem/latex.py b/plaschem/latex.py
index c9a2961..35dcb2c 100644
--- a/plaschem/latex.py
+++ b/plaschem/latex.py
@@ -96,6 +96,15 @@ class Texify:
 
         raise AssertionError('TeXify error!')
 
+    @staticmethod
+    def format_number(value):
+        """Formats a number rounded to two decimal places, without the insignificant decimal zeros.
+
+        :param value: (float)
+        :return: (str)
+        """
+        return '{:.2f}'.format(round(value, 2) + 0.).rstrip('0').rstrip('.')
+
     @staticmethod
     def texify_rate_coefficient(reaction, si_units=True, fractype='/'):
         """Returns the LaTeX equation of the Arrhenius formula with the Reaction kinetic data.
@@ -106,7 +115,7 @@ class Texify:
         # pre-exponential factor:
         a_exp = '{:.2E}'.format(reaction.get_arrh_a(si_units=si_units))
         a, exp = a_exp.split('E')
-        a = a.rstrip('.0')
+        a = Texify.format_number(float(a))
         if int(exp) != 0:
             tex_a = r'{} \times 10^{{{}}}'.format(a, int(exp))
         else:
@@ -116,7 +125,7 @@ class Texify:
         if reaction.get_arrh_b() == 0:
             tex_b = ''
         else:
-            exp = str(round(reaction.get_arrh_b(), 2)).rstrip('.0')
+            exp = Texify.format_number(reaction.get_arrh_b())
             if reaction.is_electron_process():
                 tex_b = r' T_\mathrm{{e}}^{{{}}}'.format(exp)
             else:
@@ -129,7 +138,7 @@ class Texify:
         if reaction.get_arrh_c() == 0:
             tex_c = ''
         else:
-            act_en = str(round(abs(reaction.get_arrh_c()), 2)).rstrip('.0')
+            act_en = Texify.format_number(abs(reaction.get_arrh_c()))
             sign = '-' if reaction.get_arrh_c() > 0 else ''
             if reaction.is_electron_process():
                 if fractype == 'dfrac':
@@ -358,7 +367,7 @@ class ReactionsTable(TexTable):
                 )
             elif col == r'$\Delta E_\mathrm{e}$':
                 df[col] = pd.Series(
-                    [str(round(r.get_el_en_loss(), 2)).rstrip('.0') if r.get_el_en_loss() != 0 else ''
+                    [Texify.format_number(r.get_el_en_loss()) if r.get_el_en_loss() != 0 else ''
                      for r in self.reactions],
                     index=self.reactions.index
                 )
-- 
2.43.0


From 7634ae25b03364b197c0c30a2790ee96767a3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 09/35] fix: misspelt Sc and Tl in the elements order

Species with scandium or thallium could not be sorted.
---
 plaschem/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 783140a..66cd585 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -75,10 +75,10 @@ class ReactionClassifier(object):
 
     elements_order = [
         'H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca',
-        'SC', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
+        'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
         'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce',
         'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir',
-        'Pt', 'Au', 'Hg', 'Ti', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
+        'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
         'Bk', 'Cf', 'M'
     ]
 
-- 
2.43.0


From 5e33bf9816e711b8657c615a12d48be45c8c5e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 10/35] fix: classification of ion collisions without a neutral
 or an ion partner

---
 plaschem/classification.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 66cd585..26dc25d 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -298,8 +298,9 @@ class ReactionClassifier(object):
             r_category = 'unclassified electron impact collisions'
             col_partners = [sp for sp in reactants if sp.get_name() != 'e']
             heavy_products = [sp for sp in products if sp.get_name() != 'e']
-            col_partner = col_partners[0]  # used only for the case of only one collision partner
-            if len(reactants) < 2:  # this is a screw case, will go to unclassified
+            # used only for the case of only one collision partner
+            col_partner = col_partners[0] if len(col_partners) else None
+            if len(reactants) < 2 or col_partner is None:  # this is a screw case, will go to unclassified
                 pass
             elif len(reactants) > 3:  # this will lend in unclassified as well
                 pass
@@ -413,12 +414,12 @@ class ReactionClassifier(object):
                     ):
                         r_category = 'interchange'
 
-            elif ((charges_r > 0) + (charges_r == 0)).all():
+            elif ((charges_r > 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                 r_type = 'POSITIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified positive ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r > 0)[0][0]]
                 r_neutral = reactants[np.where(charges_r == 0)[0][0]]
-                if len(products) == len(reactants):
+                if len(products) == len(reactants) and (charges_p > 0).any() and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p > 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('+') == p_neutral.get_name() and \
@@ -431,7 +432,7 @@ class ReactionClassifier(object):
                     if r_neutral.get_name() + '+' in [sp.get_name() for sp in products]:
                         r_category = 'dissociative charge transfer'
 
-            elif ((charges_r < 0) + (charges_r == 0)).all():
+            elif ((charges_r < 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                 r_type = 'NEGATIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified negative ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r < 0)[0][0]]
@@ -441,7 +442,7 @@ class ReactionClassifier(object):
                         r_category = 'detachment'
                     elif len(reactants) > len(products) - el_stoich_coef:
                         r_category = 'associative detachment'
-                elif len(products) == len(reactants):
+                elif len(products) == len(reactants) and (charges_p < 0).any() and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p < 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('-') == p_neutral.get_name() and \
-- 
2.43.0


From 9c1e68d41395b5d70ec85730a8934ef48ccca2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 11/35] fix: sort_species resets the memos depending on the
 species order

---
 plaschem/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 26dc25d..f71b5e0 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -217,6 +217,8 @@ class ReactionClassifier(object):
         # reset dependencies:
         self._classified_reactions = OrderedDict()
         self._memo_species_index = dict()
+        self._alignments = dict()
+        self._memo_reactions_sorted_species_names = dict()
 
     def _species_index(self, sp):
         """This is just getting index of a species inside the self.species list. Only here to optimise the lookup
-- 
2.43.0


From dab16d541cfce56dfe93c37ad32802151ee67a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 12/35] fix: parse xml reactions of species with commas in
 their states

---
 plaschem/xml_inputs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 2127c61..68c491b 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -737,8 +737,9 @@ class XmlParser(object):
 
             attributes = {element.tag: element.text for element in list(reaction_xml) if element.tag not in skip_tags}
             # deal with the skipped tags:
-            reactants_names = [sp_name.strip() for sp_name in reaction_xml.find('reactants').text.split(',')]
-            products_names = [sp_name.strip() for sp_name in reaction_xml.find('products').text.split(',')]
+            delim = r',(?![^()]*\))'  # commas inside of parentheses belong to the species state: 'N2(v=1,J=2)'
+            reactants_names = [sp_name.strip() for sp_name in re.split(delim, reaction_xml.find('reactants').text)]
+            products_names = [sp_name.strip() for sp_name in re.split(delim, reaction_xml.find('products').text)]
             reactants = [species_dict[sp_name] for sp_name in reactants_names]
             products = [species_dict[sp_name] for sp_name in products_names]
 
-- 
2.43.0


From 45efa7b48826f5af70b219b3b5fa83b1ad952be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 13/35] fix: pretty print with the current pandas
 (Series.append is gone)

---
 plaschem/pretty_print.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 303e3d1..57f959e 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -78,8 +78,8 @@ class PrettyPrint(object):
             columns_labels = pd.Series([ColorValue(str(a)) for a in columns_labels_objects],
                                        index=columns_labels_objects.index)
             to_print.insert(0, -1, index_labels[to_print.index])
-            columns_labels = pd.Series([ColorValue(''), ], index=[-1]).append(columns_labels)
-            to_print = pd.DataFrame(columns_labels[to_print.columns]).T.append(to_print)
+            columns_labels = pd.concat([pd.Series([ColorValue(''), ], index=[-1]), columns_labels])
+            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
 
         # colorcode the disabled values:
         for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
-- 
2.43.0


From 2db6ffc024227a907021e6f5cce1ba9ec1b7009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 14/35] fix: accept integer power time points with repeated
 values

---
 pygmo_fwork/pygmol/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 039aa75..ff60661 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -188,7 +188,7 @@ class Equations(object):
         self.t_end = model_params['t_end']
 
         self.pow = np.array(model_params['power'])
-        self.t_pow = np.array(model_params['t_power'])
+        self.t_pow = np.array(model_params['t_power'], dtype=float)
 
         # adjust repeated values in P_t, since P_t needs to be strictly ascending - need to make it continuous func
         d_t = 0.00001 * self.t_end
-- 
2.43.0


From 3be5cb891b57d4340c8ed7617ed1dc4c3043bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 15/35] fix: no nan wall fluxes of the negative ions with zero
 sticking

---
 pygmo_fwork/pygmol/equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index ff60661..23cdca0 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -694,7 +694,8 @@ class Equations(object):
         if self.diffusion_model == 0:
             return -diff_c * n * s / self.diff_l ** 2 * self.volume / self.area
         elif self.diffusion_model == 1:
-            return -diff_c * n * s / (s * self.diff_l + (4 * diff_c / v_m))
+            # (species with no sticking have no flux, even if they do not diffuse at all)
+            return -diff_c * n * s / np.where(s == 0, 1., s * self.diff_l + (4 * diff_c / v_m))
         else:
             raise ValueError('Unsupported diffusion model!')
 
-- 
2.43.0


From 2873bd00b458f4d50b4564b6e56c17d845dd0ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 16/35] fix: diagnose also the quantities returned as python
 scalars

---
 pygmo_fwork/pygmol/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 35d76ef..d3692d5 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -243,7 +243,7 @@ class Model(object):
         """
         if sol_primary is None:
             sol_primary = self.sol_primary
-        diagnostics = pd.DataFrame([getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary])
+        diagnostics = pd.DataFrame(np.array([getattr(self.equations, 'get_{}'.format(quantity))(y) for y in sol_primary]))
         if diagnostics.shape[1] == self.equations.num_species:  # a value for each species
             diagnostics.columns = list(self.chemistry.get_species_name())
         elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
-- 
2.43.0


From 08881032b7117bea6038788b9632e0d8b3595681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 17/35] fix: label the diagnosed reaction quantities by
 reactions in any chemistry

---
 pygmo_fwork/pygmol/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index d3692d5..befd7a7 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -244,10 +244,10 @@ class Model(object):
         if sol_primary is None:
             sol_primary = self.sol_primary
         diagnostics = pd.DataFrame(np.array([getattr(self.equations, 'get_{}'.format(quantity))(y) for y in sol_primary]))
-        if diagnostics.shape[1] == self.equations.num_species:  # a value for each species
-            diagnostics.columns = list(self.chemistry.get_species_name())
-        elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
+        if quantity in {'reaction_rates', 'reaction_rate_coefficients', 'el_en_losses'}:  # a value for each reaction
             diagnostics.columns = list(self.chemistry.get_reactions_id())
+        elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
+            diagnostics.columns = list(self.chemistry.get_species_name())
         elif diagnostics.shape[1] == self.equations.num_species + 1:  # a value for each component of the y vector
             diagnostics.columns = list(self.chemistry.get_species_name()) + ['rho']
         else:  # one value for the whole system
-- 
2.43.0


From 29e52d8c7f7575d4d57b3184372315a96dd11ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 18/35] fix: numeric results frames interpolated also from
 object columns

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f5154c3..d106657 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -238,12 +238,12 @@ class ResultsParser(object):
             assert results_df['t'].iloc[0] <= t <= results_df['t'].iloc[-1], \
                 'time={} is outside the results_df range'.format(t)
 
-        frames = pd.DataFrame(columns=results_df.columns)
+        frames = pd.DataFrame(index=range(len(times)), columns=results_df.columns, dtype=float)
         frames.loc[:, 't'] = times
         ignore_columns = {'t'}
         for col in results_df.columns:
             if col not in ignore_columns:
-                vals_at_times = np.interp(times, results_df['t'], results_df[col])
+                vals_at_times = np.interp(times, results_df['t'].astype(float), results_df[col].astype(float))
                 frames.loc[:, col] = vals_at_times
         return frames
 
-- 
2.43.0


From 69c1cc76c6a05a5e9e1d4f78b492dbdec278394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 19/35] fix: print the production and consumption with the
 current pandas

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index d106657..d83620d 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -430,7 +430,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         production_rates = all_rates[all_rates > 0]
         # capping
         if n is None:
@@ -463,7 +463,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         consumption_rates = all_rates[all_rates < 0]
         # capping
         if n is None:
-- 
2.43.0


From 91d4d49e83a6edcc8cc939736be151124627fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 20/35] fix: max_flow search with the current pandas, in a
 fixed order of nodes

---
 pygmo_fwork/optichem/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 15bf7aa..227df22 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -240,7 +240,8 @@ class Graph(object):
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
 
         # first build the matrix of capacities and plugging zero where edges do not exist:
-        capacity = pd.DataFrame(index=self.get_nodes(), columns=self.get_nodes())
+        nodes = sorted(self.get_nodes())
+        capacity = pd.DataFrame(index=nodes, columns=nodes)
         for u in self.get_nodes():
             for v in self.get_nodes():
                 if self.has_edge(u, v):
-- 
2.43.0


From 5d69fb39177eff5e918a31ab69cae9e963de050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 21/35] fix: DRGEP weights of the species with equal production
 and consumption

---
 pygmo_fwork/optichem/graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 227df22..09a09e9 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -469,9 +469,7 @@ class ChemistryGraph(object):
             assert (tot_prod >= 0).all()
             assert (tot_cons >= 0).all()
             # build the normalisation array (N_times x N_species):
-            norm = np.zeros(tot_prod.shape)
-            norm[tot_prod > tot_cons] = tot_prod[tot_prod > tot_cons]
-            norm[tot_cons > tot_prod] = tot_cons[tot_cons > tot_prod]
+            norm = np.maximum(tot_prod, tot_cons)
             # rows are important times and columns are species
         else:
             raise NotImplementedError('Unrecognised weighting method: {}'.format(weighting_method))
-- 
2.43.0


From ce009d82b9f20f83c269f4a9017312804d95c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 22/35] fix: rank also the species without any edges in the
 graph

---
 pygmo_fwork/optichem/graph.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 09a09e9..9012d98 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -49,6 +49,17 @@ class Graph(object):
         """
         return self.node_attributes[node]
 
+    def add_node(self, node: str) -> None:
+        """Method adding a node to the graph, does nothing, if the node is already present.
+        :param node: (str)
+        :return: None
+        """
+        if node not in self.nodes:
+            self.nodes.add(node)
+            self.node_attributes[node] = {}
+            self.successors[node] = set([])
+            self.predecessors[node] = set([])
+
     def add_edge(self, u: str, v: str) -> None:
         """Method adding an edge to the graph. If the nodes u or v are not present, these are automatically added.
         :param u: (str) tail node of the (u, v) edge
@@ -480,6 +491,8 @@ class ChemistryGraph(object):
         # distribute the weights for all the graph for each one important time:
         for t_i, t in enumerate(self.important_times):
             graph = self.graphs[t_i]
+            for a in self.species:  # also the species without any edges need to be ranked
+                graph.add_node(a)
             for a_i, a in enumerate(self.species):
                 for b_i, b in enumerate(self.species):
                     if a != b:
-- 
2.43.0


From 5982370c0d1cbfa0ebd91f9d68278c35938de55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 23/35] fix: model parameters do not share the power arrays
 with the caller

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 7b5a0fa..6c68342 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -102,7 +102,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(power, number_type='non-negative')
         if self._time_array is not None and len(self._time_array) != len(power_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._power_array = power_array
+        self._power_array = list(power_array)
 
     def get_power(self):
         """Returns the power values.
@@ -125,7 +125,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(time, number_type='any')
         if self._power_array is not None and len(self._power_array) != len(time_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._time_array = time_array
+        self._time_array = list(time_array)
 
     def get_time(self):
         """Returns the time values corresponding to the power values.
-- 
2.43.0


From 0d827801c665334719e42a4d914cbb6a6988b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 24/35] fix: ModelParameters accept a ModelParameters instance

---
 pygmo_fwork/pygmol/model_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 6c68342..e9af3fe 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -220,7 +220,7 @@ class ModelParameters(_ModelParametersBase):
         if model_params is None:
             all_passed_params = {}
         else:
-            all_passed_params = model_params.copy()
+            all_passed_params = dict(model_params)
         all_passed_params.update(additional_model_params)
 
         self.parameters = {}  # this is the "master" dict holding all the values under their nominal keys
-- 
2.43.0


From f9b2c766edd6f5c6f9edff88b6b3888b3afa8546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 25/35] fix: values and items of ModelParameters do not expose
 the internal objects

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index e9af3fe..76028bc 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -302,7 +302,7 @@ class ModelParameters(_ModelParametersBase):
         return self.parameters.keys()
 
     def values(self):
-        return self.parameters.values()
+        return {key: self[key] for key in self}.values()
 
     def items(self):
-        return self.parameters.items()
+        return {key: self[key] for key in self}.items()
-- 
2.43.0


From 0b696cfe67165648c0eccd087fe58aec76122698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 26/35] fix: backend coherence of the morris runs is
 case-insensitive

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f67c08b..7670c98 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -407,7 +407,7 @@ class MorrisMethod(object):
                 if not meta_meta['trajectory_type'] == traj_type:
                     raise MorrisCoherenceError(
                         'Trajectory type is not coherent with previous morris trajectories for this Morris Run ID')
-                if not meta_meta['model_backend'] == self.model_backend:
+                if not meta_meta['model_backend'] == self.model_backend.lower():
                     raise MorrisCoherenceError(
                         'Model backend is not coherent with previous morris trajectories for this Morris Run ID')
 
-- 
2.43.0


From 481133927defd27b1e63957932717c0d0e23f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 27/35] fix: morris trajectories accept a ModelParameters
 instance

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 7670c98..3387ac1 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -503,7 +503,7 @@ class MorrisMethod(object):
         """
         # make the copies of everything for this particular run... This way multiple trajectories can run parallel
         chemistry = self.chemistry.copy()
-        model_params = self.model_params.copy()
+        model_params = dict(self.model_params)
         model = GlobalModel(chemistry, model_params, backend=self.model_backend)
 
         # make sure that all the relevant attributes are passed:
-- 
2.43.0


From 3d0b26e7b0162bda6aaf982f1840c41b2a3305b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 28/35] fix: run_morris reports the exceptions raised by the
 trajectories

---
 pygmo_fwork/optichem/morris.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 3387ac1..9491690 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -782,11 +782,14 @@ class MorrisMethod(object):
             num_cores = multiprocessing.cpu_count() - 1
         pool = multiprocessing.Pool(num_cores)  # pool of workers, by default using all but one PC's CPUs
 
+        results = []
         for kwds in kwds_q:  # run all the trajectories in the pool.
-            pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds)
+            results.append(pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds))
 
         pool.close()
         pool.join()
+        for result in results:  # all the trajectories have finished, raise the first exception from the failed ones.
+            result.get()
 
     # ********************************* POST-PROCESSING TRAJECTORIES ************************************************* #
 
-- 
2.43.0


From 96e571ede4e709d31e4e7a2ee55c1ff29db9f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 29/35] fix: reduction never removes the ineligible species
 implicitly

---
 pygmo_fwork/optichem/reduction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 09066b5..344aa09 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -218,6 +218,12 @@ class ReductionIterator(object):
             removed_successfully = True
         except ChemistryDisableError:  # species could not even be disabled... will be skipped.
             removed_successfully = False
+        if removed_successfully:
+            species_removed = species_left_before_remove - set(self.model.model.chemistry.get_species_name())
+            if not species_removed.issubset(self.left_eligible_species):
+                # some of the species, which are not eligible for removal, were removed implicitly, restore the chemistry
+                removed_successfully = False
+                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
         if removed_successfully:
             try:
                 try:
-- 
2.43.0


From 3810826e6c07aa63c807569c8c5b79e7927c6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 30/35] fix: implicitly removed species are logged in a fixed
 order

---
 pygmo_fwork/optichem/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 344aa09..3137773 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -251,7 +251,7 @@ class ReductionIterator(object):
             assert species in species_removed, '{} not in {}'.format(species, species_removed)  # sanity check
             implicitly_removed = species_removed - {species}
             if len(implicitly_removed):  # one or more species were removed implicitly on the back of species:
-                self.reduction_history.at[index, 'rm_additional'] = ', '.join(implicitly_removed)
+                self.reduction_history.at[index, 'rm_additional'] = ', '.join(sorted(implicitly_removed))
                 for sp in implicitly_removed:
                     self.left_eligible_species.remove(sp)
 
-- 
2.43.0


From cf932316dcfb48e542578fbbb129260dd5907729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 31/35] fix: log_results never deletes anything outside of the
 run subdirectory

---
 pygmo_fwork/global_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 168c762..e61bb46 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -244,6 +244,9 @@ class GlobalModel(object):
         if not os.path.isdir(results_dir):
             raise GlobalModelLogError('Invalid or non existing results_dir!')
         run_results_dir = os.path.join(results_dir, run_id)
+        # never touch anything outside of the results_dir, nor the results_dir itself:
+        if os.path.relpath(run_results_dir, results_dir).split(os.sep)[0] in {os.curdir, os.pardir}:
+            raise GlobalModelLogError('The run_id "{}" is not a valid results subdirectory!'.format(run_id))
         if os.path.isdir(run_results_dir):
             if overwrite:
                 shutil.rmtree(run_results_dir)
-- 
2.43.0


From 1546f3a1206bc764b99c833b8ca9ee65ae887bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 32/35] fix: numpy parameters do not break the yaml logs of the
 model attributes

---
 pygmo_fwork/global_model.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index e61bb46..00cce61 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -274,13 +274,27 @@ class GlobalModel(object):
         with open(os.path.join(
                 run_results_dir, Config.default_log_name('model_attributes', run_id=run_id)), 'w') as stream:
             yaml.dump(
-                {'model_params': model_params, 'initial_params': init_params},
+                self.numpy_to_builtins({'model_params': model_params, 'initial_params': init_params}),
                 stream=stream
             )
 
         # save the solver log (for PyGMol) or copy all the inputs and outputs (for GlobalKin)
         self.model.dump_logs(run_results_dir=run_results_dir)
 
+    @staticmethod
+    def numpy_to_builtins(value):
+        """Converts all the numpy values to the builtin types, so that they can be loaded back from the yaml logs.
+        :param value: any (possibly nested) value
+        :return: the same value, but without any numpy types.
+        """
+        if isinstance(value, dict):
+            return {GlobalModel.numpy_to_builtins(key): GlobalModel.numpy_to_builtins(value[key]) for key in value}
+        elif isinstance(value, (list, tuple)):
+            return type(value)(GlobalModel.numpy_to_builtins(item) for item in value)
+        elif isinstance(value, (np.generic, np.ndarray)):
+            return value.tolist()
+        return value
+
     @staticmethod
     def check_convergency(solution, model_params, eps=0.1, timewindow=0.1, verbose=False):
         """Method to check the computed backend model results and check if the results converged in time. Also
-- 
2.43.0


From 279c074e1fef66619c4af1232e1c8d19dcf55299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 33/35] fix: numpy model parameters do not break the morris
 meta data

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 9491690..f1dca2d 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -426,7 +426,7 @@ class MorrisMethod(object):
 
         model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
         with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
-            yaml.dump(model_params, stream)
+            yaml.dump(GlobalModel.numpy_to_builtins(model_params), stream)
 
         with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
             yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
-- 
2.43.0


From 4dad9282d81d7b7a037a2068fa346230133771d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:42 +0000
Subject: [PATCH 34/35] fix: equations getters do not expose internal buffers,
 diagnosed quantities are not all the last ones

---
 pygmo_fwork/pygmol/equations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 23cdca0..9faaa11 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -427,7 +427,7 @@ class Equations(object):
         self.k_r[self.mask_elc] = \
             self.reactions_arrh_a[self.mask_elc] * temp_e ** self.reactions_arrh_b[self.mask_elc] * \
             np.e ** (-self.reactions_arrh_c[self.mask_elc] / temp_e)
-        return self.k_r
+        return self.k_r.copy()
 
     def get_reaction_rates(self, y, n=None, n_e=None, n_tot=None, k_r=None):
         """Method to calculate the vector of reaction rates for all the reactions from the features vector y.
@@ -521,7 +521,7 @@ class Equations(object):
         # mean speeds (therm.) - values for the neutrals are static, only need to update values for +/- ions
         self.v_m[~self.mask_neu] = (8 * constants.k * temp_i / (
                 constants.pi * self.species_mass[~self.mask_neu])) ** 0.5
-        return self.v_m
+        return self.v_m.copy()
 
     def get_sigma_sc(self, y, v_m=None, debye_length=None):
         """Method to populate the dynamic values of the matrix for sp-2-sp momentum transfer scattering cross sections
@@ -550,7 +550,7 @@ class Equations(object):
             constants.pi * b_0_ii ** 2 * np.log(2 * debye_length / b_0_ii)
         self.sigma_sc[np.diag(len(self.sigma_sc) * [True, ])] = 0.  # diagonal elements are zero - collisions with self
         # are not contributing to diffusion of species
-        return self.sigma_sc
+        return self.sigma_sc.copy()
 
     def get_mean_free_paths(self, y, n=None, sigma_sc=None):
         """Method to calculate the vector of mean free paths for all the species from the features vector y.
@@ -837,7 +837,7 @@ class Equations(object):
         mask = self.mask_elc & self.mask_els
         self.el_en_loss[mask] = \
             3 * constants.m_e / self.col_partner_masses[mask] * (temp_e - self.temp_g * constants.k / constants.e)
-        return self.el_en_loss
+        return self.el_en_loss.copy()
 
     def get_drho_dt_el_inel(self, y, el_en_losses=None, reaction_rates=None):
         """Method to calculate the contribution of elastic and inel collisions to the time derivative of the
-- 
2.43.0


From ca8b73c8bffebda40bebb4c15dadd18f9eb3a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 35/35] fix: wall fluxes of the neutral model (diffusivities
 evaluated on their own)

---
 pygmo_fwork/pygmol/neutral_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index 3a64024..e0d080d 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -67,6 +67,8 @@ class NeutralEquations(Equations):
         return self.sigma_sc
 
     def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
+        if diff_c_free is None:
+            diff_c_free = self.get_free_diffusivities(y)
         return diff_c_free
 
     # redefine the objective function factory, so it does not calculate unnecessary clutter
-- 
2.43.0

