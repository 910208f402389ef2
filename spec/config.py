"""Reference semantics of pygmo_fwork/config.py.  Parsed, never executed."""
import yaml
from pathlib import Path
from pygmo_fwork.exceptions import ConfigError, GlobalModelAttributeError

@tables('G28')
class Config(dict):
    accepted_backends = ('pygmol', 'pygkin')

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, config_file_path=Path.home().joinpath('.pygmofwork')):
        if not Path(config_file_path).is_file():
            raise ConfigError('Config file not found at {}!'.format(config_file_path))
        with open(config_file_path, 'r') as stream:
            try:
                config_dict = dict(yaml.load(stream, yaml.FullLoader))
            except (TypeError, ValueError) as _:
                raise ConfigError('Failed to parse the config file! Needs to follow the prescribed format & structure!')
        super().__init__(config_dict)

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def __getitem__(self, key):
        if key not in self.keys():
            raise ConfigError('{} not found in the Config keys!'.format(key))
        return super().__getitem__(key)

    @spec('G28')
    def _get_results_root(self):
        results_root = Path(self['workspace']) / 'results'
        return results_root

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_results_dir(self, backend_id):
        backend_id = backend_id.lower()
        if backend_id not in self.accepted_backends:
            raise GlobalModelAttributeError('Unsupported global model backend! Only {} allowed'.format(self.accepted_backends))
        results_dir = self._get_results_root() / backend_id
        results_dir.mkdir(parents=True, exist_ok=True)
        return results_dir

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_globalkin_stage_dir(self):
        if not Path(self['globalkin_bin']).is_file():
            raise ConfigError('Invalid path to the Global_Kin binary file: {}!'.format(self['globalkin_bin']))
        globalkin_stage_dir = Path(self['workspace']) / 'globalkin_stage'
        globalkin_stage_dir.mkdir(parents=True, exist_ok=True)
        return globalkin_stage_dir

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_morris_results_dir(self):
        morris_results_dir = self._get_results_root() / 'morris_sensitivity'
        morris_results_dir.mkdir(parents=True, exist_ok=True)
        return morris_results_dir

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    def get_reduction_results_dir(self):
        reduction_results_dir = self._get_results_root() / 'reduction'
        reduction_results_dir.mkdir(parents=True, exist_ok=True)
        return reduction_results_dir

    @spec('G28', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def default_log_name(log, **kwargs):
        if log in {'solution', 'rates', 'wall_fluxes'}:
            return '{}.csv'.format(log)
        elif log in {'model_attributes', 'chemistry_attributes', 'solver_log'}:
            return '{}.yaml'.format(log)
        else:
            raise AssertionError('Unrecognised log identifier!')
