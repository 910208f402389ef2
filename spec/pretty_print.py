"""Reference semantics of plaschem/pretty_print.py.  Parsed, never executed."""
import colorama
import pandas as pd

class ColorValue:

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, value, color='RESET'):
        self.value = value
        self.color = getattr(colorama.Fore, color)

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def set_value(self, value):
        self.value = value

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def set_color(self, color):
        self.color = getattr(colorama.Fore, color)

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def __str__(self):
        return self.color + self.value.__str__() + colorama.Fore.RESET

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def __repr__(self):
        return self.color + self.value.__repr__() + colorama.Fore.RESET

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def __eq__(self, other):
        return self.value == other

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def __hash__(self):
        return self.value.__hash__()

class PrettyPrint(object):

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry):
        self.chemistry = chemistry

    @spec('L18')
    def _get_pretty_dataframe(self, array, annotation):
        to_print = array.copy()
        for i in to_print.index:
            for c in to_print.columns:
                to_print.at[i, c] = ColorValue(to_print.at[i, c])
        structure = {}
        for keys in ['index', 'columns']:
            for candidates in ['species', 'reactions']:
                if set(getattr(to_print, keys)).issubset(set(getattr(self.chemistry, '_{}'.format(candidates)).index)):
                    structure[keys] = candidates
                    break
        if annotation:
            index_labels_objects = getattr(self.chemistry, '_{}'.format(structure['index']))
            index_labels = pd.Series([ColorValue(str(a)) for a in index_labels_objects], index=index_labels_objects.index)
            columns_labels_objects = getattr(self.chemistry, '_{}'.format(structure['columns']))
            columns_labels = pd.Series([ColorValue(str(a)) for a in columns_labels_objects], index=columns_labels_objects.index)
            to_print.insert(0, -1, index_labels[to_print.index])
            columns_labels = pd.concat([pd.Series([ColorValue('')], index=[-1]), columns_labels])
            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
        for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
            if i in to_print.index:
                for c in to_print.columns:
                    to_print.at[i, c].set_color('RED')
        for c in getattr(self.chemistry, 'get_disabled_{}'.format(structure['columns']))().index:
            if c in to_print.columns:
                for i in to_print.index:
                    to_print.at[i, c].set_color('RED')
        to_print.index = [''] + list(to_print.index)[1:]
        to_print.columns = [''] + list(to_print.columns)[1:]
        to_print.columns = [ColorValue(c) for c in to_print.columns]
        return to_print

    @spec('L18', aspects='returns raises signature fields effects', fields='*')
    def print(self, array, annotation=True):
        if type(array) == pd.DataFrame:
            pretty_df = self._get_pretty_dataframe(array=array, annotation=annotation)
            print()
            with pd.option_context('display.max_rows', None, 'display.max_columns', None, 'display.width', None):
                print(pretty_df)
            print()
            return pretty_df
        else:
            raise NotImplementedError('PrettyPrint.print onlys defined for pd.DataFrame.')
