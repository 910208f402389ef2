"""Reference semantics of plaschem/latex.py.  Parsed, never executed."""
from collections import OrderedDict
import pandas as pd

@tables('L17')
class Texify:
    element_symbols = ['H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca', 'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y', 'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce', 'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir', 'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm', 'Bk', 'Cf', 'Es', 'Fm', 'Md', 'No', 'Lr', 'Rf', 'Db', 'Sg', 'Bh', 'Hs', 'Mt', 'Ds', 'Rg', 'Cn', 'Nh', 'Fl', 'Mc', 'Lv', 'Ts', 'Og']

    @spec('L17')
    @staticmethod
    def _texify_ground_state(ordinary_formula):
        of = ordinary_formula
        for end in Texify.element_symbols + list(range(10)):
            for s in ['****', '***', '**', '+++', '++', '---', '--']:
                of = of.replace('{}{}'.format(end, s), '{}^{{{}}}'.format(end, s))
            for s in ['+', '-', '*']:
                of = of.replace('{}{}'.format(end, s), '{}^{}'.format(end, s))
        for a in Texify.element_symbols:
            for n in range(10, 20):
                of = of.replace('{}{}'.format(a, n), '{}_{{{}}}'.format(a, n))
            for n in range(1, 10):
                of = of.replace('{}{}'.format(a, n), '{}_{}'.format(a, n))
        for a in ['^{++}', '^{+++}', '^{--}', '^{---}']:
            of = of.replace(a, '^{{{}{}}}'.format(len(a[2:-1]), a[2]))
        alphas = [char.isalpha() for char in of]
        in_env = False
        for i in reversed(range(len(alphas))):
            if alphas[i]:
                if not in_env:
                    of = of[:i + 1] + '}' + of[i + 1:]
                    in_env = True
                if i == 0 and in_env:
                    of = '\\mathrm{' + of
            elif in_env:
                of = of[:i + 1] + ' \\mathrm{' + of[i + 1:]
                in_env = False
        return of

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def texify_species(rp_name):
        lbs = [i for i, ltr in enumerate(rp_name) if ltr == '(']
        rbs = [i for i, ltr in enumerate(rp_name) if ltr == ')']
        assert len(lbs) == len(rbs), 'TeXify error! Brackets not closed in species name!'
        assert len(lbs) in {0, 1}, 'TeXify error! More than one bracket!'
        if len(lbs) == 1:
            assert lbs[0] < rbs[0], 'TeXify error! Inconsistent bracket!'
            assert rbs[0] == len(rp_name) - 1, 'TeXify error! Bracket not at the end of species name!'
        if len(lbs) == 0:
            return Texify._texify_ground_state(rp_name)
        elif len(lbs) == 1:
            return '{} {}'.format(Texify._texify_ground_state(rp_name[:lbs[0]]), rp_name[lbs[0]:])
        raise AssertionError('TeXify error!')

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def format_number(value):
        return '{:.2f}'.format(round(value, 2) + 0.0).rstrip('0').rstrip('.')

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def texify_rate_coefficient(reaction, si_units=True, fractype='/'):
        a_exp = '{:.2E}'.format(reaction.get_arrh_a(si_units=si_units))
        a, exp = a_exp.split('E')
        a = Texify.format_number(float(a))
        if int(exp) != 0:
            tex_a = '{} \\times 10^{{{}}}'.format(a, int(exp))
        else:
            tex_a = a
        if reaction.get_arrh_b() == 0:
            tex_b = ''
        else:
            exp = Texify.format_number(reaction.get_arrh_b())
            if reaction.is_electron_process():
                tex_b = ' T_\\mathrm{{e}}^{{{}}}'.format(exp)
            elif fractype == 'dfrac':
                tex_b = ' \\left( \\dfrac{{\\mathrm{{T_g}}}}{{300}} \\right)^{{{}}}'.format(exp)
            else:
                tex_b = ' \\left( \\mathrm{{T_g}}/300 \\right)^{{{}}}'.format(exp)
        if reaction.get_arrh_c() == 0:
            tex_c = ''
        else:
            act_en = Texify.format_number(abs(reaction.get_arrh_c()))
            sign = '-' if reaction.get_arrh_c() > 0 else ''
            if reaction.is_electron_process():
                if fractype == 'dfrac':
                    tex_c = ' \\exp \\left( {}\\dfrac{{{}}}{{T_\\mathrm{{e}}}} \\right)'.format(sign, act_en)
                else:
                    tex_c = ' \\exp \\left( {}{}/T_\\mathrm{{e}} \\right)'.format(sign, act_en)
            elif fractype == 'dfrac':
                tex_c = ' \\exp \\left( {}\\dfrac{{{}}}{{\\mathrm{{T_g}}}} \\right)'.format(sign, act_en)
            else:
                tex_c = ' \\exp \\left( {}{}/\\mathrm{{T_g}} \\right)'.format(sign, act_en)
        return tex_a + tex_b + tex_c

class TexTable(object):

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, table_type, spacing=1.5, fontsize='tiny'):
        self.dataframe = pd.DataFrame(dtype='str')
        self.decorators = pd.DataFrame(dtype='object')
        self.notes = OrderedDict()
        self.caption = ''
        self.table_type = table_type
        self.label = ''
        self.spacing = spacing
        self.fontsize = fontsize

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    def load_dataframe(self, dataframe):
        self.dataframe = dataframe
        self.decorators = pd.DataFrame(lambda x: x, index=self.dataframe.index, columns=self.dataframe.columns)

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    def add_label(self, label):
        self.label = label

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    def add_note(self, superscript, note):
        self.notes[superscript] = note

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    def add_caption(self, caption_str):
        self.caption = caption_str

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    def add_decorator(self, index, column, decorator_func):
        self.decorators.at[index, column] = decorator_func

    @spec('L17')
    def _get_caption_lines(self):
        lines = list()
        lines.append(self.caption + ' \\\\')
        for superscript, note in self.notes.items():
            lines.append('$^\\mathrm{{{}}}$ {} \\\\'.format(superscript, note))
        return lines

    @spec('L17')
    def _get_header_line(self, table_type):
        if table_type == 'table':
            line = ' & '.join(['\\textbf{{{}}}'.format(col) for col in self.dataframe.columns]) + ' \\\\'
        elif table_type == 'longtable':
            line = ' & '.join(['\\multicolumn{{1}}{{l}}{{\\textbf{{{}}}}}'.format(col) for col in self.dataframe.columns]) + ' \\\\'
        else:
            raise ValueError('Unrecognised table type!')
        return line

    @spec('L17')
    def _get_body_lines(self):
        lines = list()
        for index in self.dataframe.index:
            lines.append(' & '.join([self.decorators.at[index, col](self.dataframe.at[index, col]) for col in self.dataframe.columns]) + ' \\\\')
        return lines

    @spec('L17')
    @staticmethod
    def _get_sep_lines():
        lines = list()
        lines.append('\\noalign{\\vskip 1mm}')
        lines.append('\\hline')
        lines.append('\\noalign{\\vskip 1mm}')
        return lines

    @spec('L17')
    def _str_table(self, tab='    '):
        lines = list()
        indent = 1
        lines.append('\\begin{table}[!htb]')
        lines.append(indent * tab + '\\centering')
        lines.append(indent * tab + '\\caption{')
        for line in self._get_caption_lines():
            lines.append(2 * tab + line)
        lines.append(indent * tab + '}')
        lines.append(indent * tab + '\\label{{{}}}'.format(self.label))
        lines.append('\\begingroup')
        lines.append('\\renewcommand{{\\arraystretch}}{{{}}}'.format(self.spacing))
        lines.append(indent * tab + '\\resizebox{\\textwidth}{!}{%')
        lines.append(indent * tab + '\\begin{{tabular}}{{{}}}'.format(len(self.dataframe.columns) * 'l'))
        indent = 2
        lines.append(indent * tab + self._get_header_line(self.table_type))
        for line in self._get_sep_lines():
            lines.append(indent * tab + line)
        for line in self._get_body_lines():
            lines.append(indent * tab + line)
        for line in self._get_sep_lines():
            lines.append(indent * tab + line)
        indent = 1
        lines.append(indent * tab + '\\end{tabular}')
        lines.append(indent * tab + '}')
        lines.append(indent * tab + '\\endgroup')
        lines.append('\\end{table}')
        return '\n'.join(lines)

    @spec('L17')
    def _str_longtable(self, tab='    '):
        lines = list()
        indent = 1
        cols = len(self.dataframe.columns)
        lines.append('\\{}'.format(self.fontsize))
        lines.append('\\begin{{longtable}}{{{}}}'.format(cols * 'l'))
        lines.append(indent * tab + '\\caption{')
        for line in self._get_caption_lines():
            lines.append((indent + 1) * tab + line)
        lines.append(indent * tab + '}')
        lines.append(indent * tab + '\\label{{{}}} \\\\'.format(self.label))
        lines.append(indent * tab + self._get_header_line(table_type=self.table_type))
        for line in self._get_sep_lines():
            lines.append(indent * tab + line)
        lines.append(indent * tab + '\\endfirsthead')
        lines.append('')
        lines.append(indent * tab + '\\multicolumn{{{}}}{{c}}{{{{\\tablename\\ \\thetable{{}} (\\textit{{Continued}})}}}} \\\\'.format(cols))
        lines.append(indent * tab + self._get_header_line(table_type=self.table_type))
        for line in self._get_sep_lines():
            lines.append(indent * tab + line)
        lines.append(indent * tab + '\\endhead')
        lines.append('')
        for line in self._get_sep_lines():
            lines.append(indent * tab + line)
        lines.append(indent * tab + '\\multicolumn{{{}}}{{r}}{{\\textit{{Continued on next page}}}} \\\\'.format(cols))
        lines.append(indent * tab + '\\endfoot')
        lines.append('')
        for line in self._get_sep_lines():
            lines.append(indent * tab + line)
        lines.append(indent * tab + '\\endlastfoot')
        lines.append('')
        for line in self._get_body_lines():
            lines.append(indent * tab + line)
        lines.append('\\end{longtable}')
        lines.append('\\normalsize')
        return '\n'.join(lines)

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    def __str__(self, tab='    '):
        if self.table_type == 'table':
            return self._str_table(tab=tab)
        elif self.table_type == 'longtable':
            return self._str_longtable(tab=tab)
        else:
            raise ValueError('Table type not recognised!')

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_note_decorator(superscripts):

        def note_decorator(cell_text):
            return '{} $^\\mathrm{{{}}}$'.format(cell_text, ','.join(superscripts))
        return note_decorator

class ReactionsTable(TexTable):

    @spec('L17', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry, columns=('ID', 'Reaction', '$k$', '$\\Delta E_\\mathrm{e}$', 'Source')):
        super().__init__('longtable')
        self.chemistry = chemistry
        self.reactions = self.chemistry.get_reactions(disabled=False)
        df = pd.DataFrame(index=self.reactions.index, columns=columns, dtype='str')
        for col in columns:
            if col == 'ID':
                df[col] = pd.Series([str(r.id) for r in self.reactions], index=self.reactions.index)
            elif col == 'Reaction':
                df[col] = pd.Series(['${}$'.format(r.get_latex()) for r in self.reactions], index=self.reactions.index)
            elif col == '$k$':
                df[col] = pd.Series(['${}$'.format(Texify.texify_rate_coefficient(r, si_units=True)) for r in self.reactions], index=self.reactions.index)
            elif col == '$\\Delta E_\\mathrm{e}$':
                df[col] = pd.Series([Texify.format_number(r.get_el_en_loss()) if r.get_el_en_loss() != 0 else '' for r in self.reactions], index=self.reactions.index)
            elif col == 'Source':
                df[col] = pd.Series([str(r.get_doi()) for r in self.reactions], index=self.reactions.index)
            else:
                raise ValueError('Unrecognised ReactionsTable column!')
        self.load_dataframe(df)
