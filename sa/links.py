"""Which further functions a property rests on, besides those whose specification names it.

property -> class -> method names ('*': all of the class, 'get_*': by prefix)."""

CHEM_MUTATORS = 'set_protected_species _disable_recursively disable reset set_adhoc_species_attributes ' \
                'reset_adhoc_species_attributes set_adhoc_reactions_attributes reset_adhoc_reactions_attributes ' \
                'load_chemistry_attributes get_species_ret_coefs'

LINKS = {
    'C01': {'RP': 'get_stateless get_state get_name'},
    'C02': {'Chemistry': 'get_species get_reactions get_species_mask get_reactions_mask', 'Reaction': 'get_reactants get_products',
            'NeutralChemistry': 'get_reactions_stoich_coefs_electron'},
    'C03': {'RP': 'get_stick_coef get_ret_coefs get_latex is_stateless strip_charge allowed_unit_values',
            'Reaction': 'get_latex get_elastic allowed_unit_values', 'Chemistry': 'get_reactions_arrh_a'},
    'C04': {'RP': 'get_unit default_attributes default_units', 'Reaction': 'get_unit default_attributes default_units'},
    'C05': {'Chemistry': 'requires_charge get_species_ret_coefs get_species_name', 'NeutralChemistry': 'assert_consistency',
            'Reaction': 'get_string __str__', 'RP': 'get_ret_coefs'},
    'C06': {'Chemistry': '_disable_recursively get_disabled_species get_disabled_reactions get_reactions_mask get_species_mask '
                         'assert_consistency'},
    'C07': {'Chemistry': 'get_rp get_species_mask reset load_chemistry_attributes'},
    'C08': {'Chemistry': '_disable_recursively get_stoichiomatrix get_disabled_species get_disabled_reactions',
            'Reaction': 'get_stoich_coefs'},
    'C09': {'Chemistry': 'get_*', 'NeutralChemistry': 'get_*'},
    'C10': {'Chemistry': '_chemistry_attributes reset reset_adhoc_species_attributes reset_adhoc_reactions_attributes '
                         'set_adhoc_species_attributes set_adhoc_reactions_attributes get_rp assert_consistency'},
    'C11': {'Chemistry': '__init__ ' + CHEM_MUTATORS},
    'C12': {'Chemistry': 'get_species_stick_coef get_species_ret_coefs get_reactions_arrh_a load_chemistry_attributes copy',
            'RP': 'get_ret_coefs get_stick_coef'},
    'C13': {'Chemistry': 'set_adhoc_species_attributes assert_consistency', 'RP': 'get_state get_charge get_stateless'},
    'E19': {'Equations': 'get_density_vector get_total_density get_total_pressure get_electron_density '
                         'get_reaction_rate_coefficients get_diffusivities get_mean_speeds'},
    'E20': {'Equations': 'get_electron_temperature get_electron_density get_electron_energy_density get_reaction_rates '
                         'get_diffusion_source_rates'},
    'E21': {'Equations': 'get_wall_fluxes'},
    'E22': {'Equations': '__init__ get_electron_temperature', 'Chemistry': 'get_reactions_arrh_a get_reactions_arrh_b get_reactions_arrh_c',
            'Reaction': 'get_rate_coefficient get_arrh_a get_arrh_b get_arrh_c is_electron_process',
            'NeutralEquations': 'get_reaction_rate_coefficients'},
    'E23': {'Equations': 'get_*'},
    'E25': {'NeutralModel': '_build_y0 _y0_from_init_params _validate_y0'},
    'G27': {'GlobalModel': '__init__ get_* log_results', 'Model': 'success run get_solution'},
    'G28': {'GlobalModel': '__init__ reload_model_parameters run mandatory_backend_methods'},
    'G29': {'GlobalModel': 'run', 'Config': 'default_log_name', 'Model': 'dump_logs',
            'MorrisMethod': '_prepare_logging _get_next_traj_id _log_solution',
            'ReductionIterator': 'make_dir_structure_if_clear _run_model', 'ResultsParser': 'compress_solution'},
    'K16': {'Reaction': 'is_ion_process is_electron_process is_elastic_process get_elastic', 'RP': 'get_atoms is_stateless is_special'},
    'L17': {'RP': 'get_latex', 'Reaction': 'get_latex'},
    'L18': {'Chemistry': 'get_disabled_species get_disabled_reactions species_attributes reactions_attributes'},
    'M18': {'Model': '__init__', 'GlobalModel': 'reload_model_parameters'},
    'O31': {'Chemistry': 'load_chemistry_attributes _chemistry_attributes', 'SolutionsDiff': 'get_error_max get_error_rms'},
    'O32': {'ResultsParser': 'get_results_frames'},
    'O33': {'Chemistry': 'get_return_matrix get_stoichiomatrix'},
    'O34': {'Chemistry': 'copy check_coherence', 'ResultsParser': 'compress_solution get_results_frames'},
    'R26': {'NeutralModel': '_build_equations',
            'Equations': '__init__ get_reaction_rate_coefficients get_mean_speeds get_sigma_sc get_el_en_losses'},
    'N30': {},
    'X14': {'XmlBuilder': 'add_rp_from_attributes add_rp_from_instance add_reaction_from_attributes add_reaction_from_instance '
                          'add_chemistry_from_instance add_chemistry_from_xml rp_attributes r_attributes',
            'XmlParser': '__init__', 'RP': 'get_unit', 'Reaction': 'get_unit'},
    'X15': {'XmlBuilder': 'assign_species_ids assign_reactions_ids assign_ids',
            'XmlParser': 'get_species_and_reactions_from_xml_elements'},
    'B36': {'GlobalModel': 'log_results numpy_to_builtins run', 'Model': 'dump_logs', 'Config': 'default_log_name get_results_dir', 'Chemistry': 'get_stoichiomatrix get_return_matrix'},
}


def linked(pid, cls, name):
    for pat in LINKS.get(pid, {}).get(cls, '').split():
        if pat == '*' or pat == name or pat.endswith('*') and name.startswith(pat[:-1]):
            return True
    return False
