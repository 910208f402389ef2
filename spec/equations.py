"""Reference semantics of pygmo_fwork/pygmol/equations.py.  Parsed, never executed."""
import numpy as np
from scipy import constants
from pygmo_fwork.pygmol.exceptions import EquationsParametersConsistencyError
from pygmo_fwork.pygmol.model_parameters import ModelParameters

@tables('E21')
class Equations(object):
    diffusion_model = 1

    @spec('E19 E20 E21', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry, model_params):
        if not isinstance(model_params, ModelParameters):
            model_params = ModelParameters(model_params)
        self.model_params = model_params
        self.species_name = np.array(chemistry.get_species_name())
        self.species_charge = np.array(chemistry.get_species_charge())
        self.species_mass = np.array(chemistry.get_species_mass()) * constants.atomic_mass
        self.species_lj_sigma = np.array(chemistry.get_species_lj_sigma()) * 1e-10
        self.species_stick_coef = np.array(chemistry.get_species_stick_coef())
        self.num_species = len(self.species_name)
        self.reactions_arrh_a = np.array(chemistry.get_reactions_arrh_a())
        self.reactions_arrh_b = np.array(chemistry.get_reactions_arrh_b())
        self.reactions_arrh_c = np.array(chemistry.get_reactions_arrh_c())
        self.reactions_el_en_loss = np.array(chemistry.get_reactions_el_en_loss())
        self.num_reactions = len(self.reactions_arrh_a)
        self.stoichiovector_electron_net = np.array(chemistry.get_reactions_stoich_coefs_electron(method='net'))
        self.stoichiovector_electron_lhs = np.array(chemistry.get_reactions_stoich_coefs_electron(method='lhs'))
        self.stoichiovector_arbitrary_lhs = np.array(chemistry.get_reactions_stoich_coefs_arbitrary(method='lhs'))
        self.return_matrix = np.array(chemistry.get_return_matrix())
        self.stoichiomatrix_net = np.array(chemistry.get_stoichiomatrix(method='net'))
        self.stoichiomatrix_lhs = np.array(chemistry.get_stoichiomatrix(method='lhs'))
        self.stoichiomatrix_reactants_lhs = np.c_[self.stoichiovector_electron_lhs, self.stoichiomatrix_lhs, self.stoichiovector_arbitrary_lhs]
        self.feeds = model_params['feeds']
        self.temp_g = model_params['temp_gas']
        self.r, self.z = (model_params['radius'], model_params['length'])
        self.p0 = model_params['pressure']
        self.t_end = model_params['t_end']
        self.pow = np.array(model_params['power'])
        self.t_pow = np.array(model_params['t_power'], dtype=float)
        d_t = 1e-05 * self.t_end
        for i in range(len(self.t_pow) - 1):
            if self.t_pow[i] == self.t_pow[i + 1]:
                self.t_pow[i] -= d_t
                self.t_pow[i + 1] += d_t
        assert np.array_equal(self.t_pow, sorted(self.t_pow)), 'Time points for power definition ill-defined!'
        assert len(self.t_pow) == len(set(self.t_pow)), 'Time points for power definition ill-defined'
        assert self.t_pow[0] <= 0.0 and self.t_pow[-1] >= self.t_end, 'The power definition needs to cover [0, t_end]'
        self.volume = constants.pi * self.r ** 2 * self.z
        self.area = 2 * constants.pi * self.r * (self.r + self.z)
        self.diff_l = ((constants.pi / self.z) ** 2 + (2.405 / self.r) ** 2) ** (-0.5)
        self.num_unknowns = self.num_species + 1
        self.mtorr = 0.133322
        self.mask_pos = self.species_charge > 0
        self.mask_neg = self.species_charge < 0
        self.mask_neu = self.species_charge == 0
        self.mask_ion = self.mask_pos | self.mask_neg
        self.mask_inl = np.array([sp in self.feeds for sp in self.species_name])
        self.mask_elc = self.stoichiovector_electron_lhs > 0
        self.mask_els = np.array(chemistry.get_reactions_elastic())
        self.feed_flows = np.array([self.feeds[sp] if sp in self.feeds else 0.0 for sp in self.species_name])
        self.feed_flow_tot = np.sum(self.feed_flows)
        self.col_partner_masses = np.zeros(self.num_reactions)
        for j in range(self.num_reactions):
            if self.mask_elc[j] and self.mask_els[j]:
                stoichiovector_lhs = self.stoichiomatrix_lhs[j]
                collision_partners_masses = self.species_mass[stoichiovector_lhs > 0]
                if not len(collision_partners_masses):
                    raise ValueError('The elastic reaction if={} does not have a collision partner')
                preference_collision_partner_mass = collision_partners_masses[0]
                self.col_partner_masses[j] = preference_collision_partner_mass
        m_i = self.species_mass[:, np.newaxis]
        m_k = self.species_mass[np.newaxis, :]
        self.reduced_mass = m_i * m_k / (m_i + m_k)
        self.mean_ion_mass = self.species_mass[self.mask_pos].mean() if any(self.mask_pos) else np.nan
        self.sheath_voltage_factor = np.log((self.mean_ion_mass / (2 * constants.pi * constants.m_e)) ** 0.5)
        self.el_en_loss = np.array(self.reactions_el_en_loss)
        self.k_r = np.empty(self.num_reactions)
        self.k_r[~self.mask_elc] = self.reactions_arrh_a[~self.mask_elc] * (self.temp_g / 300) ** self.reactions_arrh_b[~self.mask_elc] * np.e ** (-self.reactions_arrh_c[~self.mask_elc] / self.temp_g)
        self.v_m = np.empty(self.num_species)
        self.v_m[self.mask_neu] = (8 * constants.k * self.temp_g / (constants.pi * self.species_mass[self.mask_neu])) ** 0.5
        self.sigma_sc = (self.species_lj_sigma[:, np.newaxis] + self.species_lj_sigma[np.newaxis, :]) ** 2
        self.sigma_sc[np.ix_(~self.mask_neu, ~self.mask_neu)] = np.nan
        self.sigma_sc[np.diag(len(self.sigma_sc) * [True])] = 0.0
        if not set(self.feeds).issubset(set(self.species_name)):
            raise EquationsParametersConsistencyError('Feed species from the model parameters inconsistent with the chemistry!')
        for arr in (self.species_name, self.species_charge, self.species_mass, self.species_stick_coef, self.species_lj_sigma):
            if len(arr) != self.num_species:
                raise EquationsParametersConsistencyError('Inconsistent Chemistry arrays!')
        for arr in (self.reactions_arrh_b, self.reactions_arrh_a, self.reactions_arrh_c, self.reactions_el_en_loss, self.mask_els, self.stoichiovector_electron_lhs, self.stoichiovector_electron_net, self.stoichiovector_arbitrary_lhs):
            if len(arr) != self.num_reactions:
                raise EquationsParametersConsistencyError('Inconsistent Chemistry arrays!')
        for mat in (self.stoichiomatrix_lhs, self.stoichiomatrix_net):
            if mat.shape != (self.num_reactions, self.num_species):
                raise EquationsParametersConsistencyError('Inconsistent Chemistry arrays!')
        if self.return_matrix.shape != (self.num_species, self.num_species):
            raise EquationsParametersConsistencyError('Inconsistent Chemistry arrays!')

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_density_vector(y):
        return y[:-1]

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def get_electron_energy_density(y):
        return y[-1]

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_total_density(self, y, n=None):
        if n is None:
            n = self.get_density_vector(y)
        n_tot = np.sum(n)
        return n_tot

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_total_pressure(self, y, n_tot=None):
        if n_tot is None:
            n_tot = self.get_total_density(y)
        p = constants.k * self.temp_g * n_tot
        return p

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_ion_temperature(self, y, p=None):
        if p is None:
            p = self.get_total_pressure(y)
        if p > self.mtorr:
            temp_i = (0.5 * constants.e / constants.k - self.temp_g) / (p / self.mtorr) + self.temp_g
        else:
            temp_i = 0.5 * constants.e / constants.k
        return temp_i

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_electron_density(self, y, n=None):
        if n is None:
            n = self.get_density_vector(y)
        n_e = np.sum(n * self.species_charge)
        return n_e

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_electron_temperature(self, y, n_e=None, rho=None):
        if n_e is None:
            n_e = self.get_electron_density(y)
        if rho is None:
            rho = self.get_electron_energy_density(y)
        temp_e = rho / n_e * 2 / 3
        temp_g_ev = np.float64(self.temp_g * constants.k / constants.e)
        temp_e = max(temp_e, temp_g_ev)
        return temp_e

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_debye_length(self, y, n_e=None, temp_e=None):
        if n_e is None:
            n_e = self.get_electron_density(y)
        if temp_e is None:
            temp_e = self.get_electron_temperature(y)
        return (constants.epsilon_0 * temp_e / constants.e / n_e) ** 0.5

    @spec('E22', aspects='returns raises signature fields effects', fields='*')
    def get_reaction_rate_coefficients(self, y, temp_e=None):
        if temp_e is None:
            temp_e = self.get_electron_temperature(y)
        self.k_r[self.mask_elc] = self.reactions_arrh_a[self.mask_elc] * temp_e ** self.reactions_arrh_b[self.mask_elc] * np.e ** (-self.reactions_arrh_c[self.mask_elc] / temp_e)
        return self.k_r.copy()

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_reaction_rates(self, y, n=None, n_e=None, n_tot=None, k_r=None):
        if n is None:
            n = self.get_density_vector(y)
        if n_e is None:
            n_e = self.get_electron_density(y, n=n)
        if n_tot is None:
            n_tot = self.get_total_density(y, n=n)
        if k_r is None:
            k_r = self.get_reaction_rate_coefficients(y)
        n_reactants = np.r_[n_e, n, n_tot]
        n_reactants_prod = np.prod(n_reactants[np.newaxis, :] ** self.stoichiomatrix_reactants_lhs, axis=1)
        rates = k_r * n_reactants_prod
        return rates

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_volumetric_source_rates(self, y, rates=None):
        if rates is None:
            rates = self.get_reaction_rates(y)
        source_vol = np.sum(self.stoichiomatrix_net * rates[:, np.newaxis], axis=0)
        return source_vol

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_flow_source_rates(self, y, n=None, p=None):
        if n is None:
            n = self.get_density_vector(y)
        if p is None:
            p = self.get_total_pressure(y)
        t_flow = 0.001
        source_flow = np.zeros(self.num_species)
        source_flow[self.mask_neu] -= n[self.mask_neu] * (1 / t_flow) * (p - self.p0) / self.p0
        source_flow += self.feed_flows * 4.485e+17 / self.volume
        source_flow[self.mask_neu] -= sum(self.feed_flows * 4.485e+17 / self.volume) * n[self.mask_neu] / sum(n[self.mask_neu])
        return source_flow

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_mean_speeds(self, y, temp_i=None):
        if temp_i is None:
            temp_i = self.get_ion_temperature(y)
        self.v_m[~self.mask_neu] = (8 * constants.k * temp_i / (constants.pi * self.species_mass[~self.mask_neu])) ** 0.5
        return self.v_m.copy()

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_sigma_sc(self, y, v_m=None, debye_length=None):
        if v_m is None:
            v_m = self.get_mean_speeds(y)
        if debye_length is None:
            debye_length = self.get_debye_length(y)
        b_0_ii = constants.e ** 2 * abs(self.species_charge[~self.mask_neu, np.newaxis] * self.species_charge[np.newaxis, ~self.mask_neu]) / (2 * constants.pi * constants.epsilon_0) / (self.reduced_mass[np.ix_(~self.mask_neu, ~self.mask_neu)] * v_m[~self.mask_neu, np.newaxis] ** 2)
        self.sigma_sc[np.ix_(~self.mask_neu, ~self.mask_neu)] = constants.pi * b_0_ii ** 2 * np.log(2 * debye_length / b_0_ii)
        self.sigma_sc[np.diag(len(self.sigma_sc) * [True])] = 0.0
        return self.sigma_sc.copy()

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_mean_free_paths(self, y, n=None, sigma_sc=None):
        if n is None:
            n = self.get_density_vector(y)
        if sigma_sc is None:
            sigma_sc = self.get_sigma_sc(y)
        mfp = 1 / np.sum(n[np.newaxis, :] * sigma_sc, axis=1)
        return mfp

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_free_diffusivities(self, y, mfp=None, v_m=None):
        if mfp is None:
            mfp = self.get_mean_free_paths(y)
        if v_m is None:
            v_m = self.get_mean_speeds(y)
        diff_c_free = constants.pi / 8 * mfp * v_m
        return diff_c_free

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_ambipolar_diffusivity_pos(self, y, n=None, n_e=None, temp_i=None, temp_e=None, diff_c_free=None):
        if n is None:
            n = self.get_density_vector(y)
        if n_e is None:
            n_e = self.get_electron_density(y, n=n)
        if temp_i is None:
            temp_i = self.get_ion_temperature(y)
        if temp_e is None:
            temp_e = self.get_electron_temperature(y, n_e=n_e)
        if diff_c_free is None:
            diff_c_free = self.get_free_diffusivities(y)
        gamma = temp_e * constants.e / constants.k / temp_i
        alpha = n[self.mask_neg].sum() / n_e
        diff_free_pos = diff_c_free[self.mask_pos].mean()
        diff_a_pos = diff_free_pos * (1 + gamma * (1 + 2 * alpha)) / (1 + alpha * gamma)
        return diff_a_pos

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_ambipolar_diffusivity_neg(self, y):
        _ = y
        diff_a_neg = 0
        return diff_a_neg

    @spec('E21', aspects='returns raises signature fields effects', fields='*')
    def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
        if diff_c_free is None:
            diff_c_free = self.get_free_diffusivities(y)
        if diff_a_pos is None:
            diff_a_pos = self.get_ambipolar_diffusivity_pos(y, diff_c_free=diff_c_free)
        if diff_a_neg is None:
            diff_a_neg = self.get_ambipolar_diffusivity_neg(y)
        diff_c = np.empty(self.num_species)
        diff_c[self.mask_neu] = diff_c_free[self.mask_neu]
        diff_c[self.mask_pos] = diff_a_pos
        diff_c[self.mask_neg] = diff_a_neg
        return diff_c

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_wall_fluxes(self, y, n=None, diff_c=None, v_m=None):
        if n is None:
            n = self.get_density_vector(y)
        if diff_c is None:
            diff_c = self.get_diffusivities(y)
        if v_m is None:
            v_m = self.get_mean_speeds(y)
        s = self.species_stick_coef
        if self.diffusion_model == 0:
            return -diff_c * n * s / self.diff_l ** 2 * self.volume / self.area
        elif self.diffusion_model == 1:
            return -diff_c * n * s / np.where(s == 0, 1.0, s * self.diff_l + 4 * diff_c / v_m)
        else:
            raise ValueError('Unsupported diffusion model!')

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_diffusion_sinks(self, y, wall_fluxes=None):
        if wall_fluxes is None:
            wall_fluxes = self.get_wall_fluxes(y)
        source_diff_sinks = wall_fluxes * self.area / self.volume
        return source_diff_sinks

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_diffusion_sources(self, y, diff_sinks=None):
        if diff_sinks is None:
            diff_sinks = self.get_diffusion_sinks(y)
        return np.sum(-diff_sinks[np.newaxis, :] * self.return_matrix, axis=1)

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_diffusion_source_rates(self, y, diff_sinks=None, diff_sources=None):
        if diff_sinks is None:
            diff_sinks = self.get_diffusion_sinks(y)
        if diff_sources is None:
            diff_sources = self.get_diffusion_sources(y, diff_sinks=diff_sinks)
        return diff_sinks + diff_sources

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_min_n_correction(self, y, n=None):
        if n is None:
            n = self.get_density_vector(y)
        n_min = 1.0
        t_rec = 1e-10
        below_min_mask = n < n_min
        min_n_correction = np.zeros(len(n))
        min_n_correction[below_min_mask] = (n_min - n[below_min_mask]) / t_rec
        return min_n_correction

    @spec('E19', aspects='returns raises signature fields effects', fields='*')
    def get_dn_dt(self, y, vol_source_rates=None, flow_source_rates=None, diff_source_rates=None, min_n_correction=None):
        if vol_source_rates is None:
            vol_source_rates = self.get_volumetric_source_rates(y)
        if flow_source_rates is None:
            flow_source_rates = self.get_flow_source_rates(y)
        if diff_source_rates is None:
            diff_source_rates = self.get_diffusion_source_rates(y)
        if min_n_correction is None:
            min_n_correction = self.get_min_n_correction(y)
        return vol_source_rates + flow_source_rates + diff_source_rates + min_n_correction

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_power_ext(self, t):
        return np.interp(t, self.t_pow, self.pow)

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_drho_dt_ext(self, t, power_ext=None):
        if power_ext is None:
            power_ext = self.get_power_ext(t=t)
        return power_ext / self.volume / constants.e

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_el_en_losses(self, y, temp_e=None):
        if temp_e is None:
            temp_e = self.get_electron_temperature(y)
        mask = self.mask_elc & self.mask_els
        self.el_en_loss[mask] = 3 * constants.m_e / self.col_partner_masses[mask] * (temp_e - self.temp_g * constants.k / constants.e)
        return self.el_en_loss.copy()

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_drho_dt_el_inel(self, y, el_en_losses=None, reaction_rates=None):
        if el_en_losses is None:
            el_en_losses = self.get_el_en_losses(y)
        if reaction_rates is None:
            reaction_rates = self.get_reaction_rates(y)
        return np.sum(el_en_losses[self.mask_elc] * reaction_rates[self.mask_elc])

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_drho_dt_gain_loss(self, y, temp_e=None, reaction_rates=None):
        if temp_e is None:
            temp_e = self.get_electron_temperature(y)
        if reaction_rates is None:
            reaction_rates = self.get_reaction_rates(y)
        return 3 / 2 * temp_e * np.sum(self.stoichiovector_electron_net * reaction_rates)

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_drho_dt_el_walls(self, y, temp_e=None, diff_source_rates=None):
        if temp_e is None:
            temp_e = self.get_electron_temperature(y)
        if diff_source_rates is None:
            diff_source_rates = self.get_diffusion_source_rates(y)
        tot_el_outflux = np.sum(self.species_charge * diff_source_rates)
        return -2 * temp_e * tot_el_outflux

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_sheath_voltage(self, y, temp_e=None):
        if temp_e is None:
            temp_e = self.get_electron_temperature(y)
        return temp_e * self.sheath_voltage_factor

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_drho_dt_ions_walls(self, y, temp_e=None, sh_pot=None, diff_source_rates=None):
        if temp_e is None:
            temp_e = self.get_electron_temperature(y)
        if sh_pot is None:
            sh_pot = self.get_sheath_voltage(y)
        if diff_source_rates is None:
            diff_source_rates = self.get_diffusion_source_rates(y)
        return -0.5 * temp_e * np.sum(diff_source_rates[self.mask_pos]) - sh_pot * np.sum(self.species_charge[self.mask_pos] * diff_source_rates[self.mask_pos])

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_min_rho_correction(self, y, rho=None):
        if rho is None:
            rho = self.get_electron_energy_density(y)
        rho_min = 1.0
        t_rec = 1e-10
        min_rho_correction = (rho_min - rho) / t_rec if rho < rho_min else 0.0
        return np.float64(min_rho_correction)

    @spec('E20', aspects='returns raises signature fields effects', fields='*')
    def get_drho_dt(self, t, y, ext=None, el_inel=None, gain_loss=None, el_walls=None, ions_walls=None, min_rho_correction=None):
        if ext is None:
            ext = self.get_drho_dt_ext(t)
        if el_inel is None:
            el_inel = self.get_drho_dt_el_inel(y)
        if gain_loss is None:
            gain_loss = self.get_drho_dt_gain_loss(y)
        if el_walls is None:
            el_walls = self.get_drho_dt_el_walls(y)
        if ions_walls is None:
            ions_walls = self.get_drho_dt_ions_walls(y)
        if min_rho_correction is None:
            min_rho_correction = self.get_min_rho_correction(y)
        return ext - el_inel - gain_loss - el_walls - ions_walls + min_rho_correction

    @spec('E19 E20', aspects='returns raises signature fields effects', fields='*')
    def get_dy_dt(self, t, y, dn_dt=None, drho_dt=None):
        if dn_dt is None:
            dn_dt = self.get_dn_dt(y)
        if drho_dt is None:
            drho_dt = self.get_drho_dt(t, y)
        return np.r_[dn_dt, drho_dt]

    @spec('E23', aspects='returns raises signature fields effects', fields='*')
    def get_objective_functions(self, jacobian=False):
        obj_function_jacobian = None

        def obj_function(t, y):
            n = self.get_density_vector(y)
            rho = self.get_electron_energy_density(y)
            n_tot = self.get_total_density(y, n=n)
            p = self.get_total_pressure(y, n_tot=n_tot)
            temp_i = self.get_ion_temperature(y, p=p)
            n_e = self.get_electron_density(y, n=n)
            temp_e = self.get_electron_temperature(y, n_e=n_e, rho=rho)
            debye_length = self.get_debye_length(y, n_e=n_e, temp_e=temp_e)
            k = self.get_reaction_rate_coefficients(y, temp_e=temp_e)
            rates = self.get_reaction_rates(y, n=n, n_e=n_e, n_tot=n_tot, k_r=k)
            source_vol = self.get_volumetric_source_rates(y, rates=rates)
            source_flow = self.get_flow_source_rates(y, n=n, p=p)
            v_m = self.get_mean_speeds(y, temp_i=temp_i)
            sigma_sc = self.get_sigma_sc(y, v_m=v_m, debye_length=debye_length)
            mfp = self.get_mean_free_paths(y, n=n, sigma_sc=sigma_sc)
            diff_c_free = self.get_free_diffusivities(y, mfp=mfp, v_m=v_m)
            diff_a_pos = self.get_ambipolar_diffusivity_pos(y, n=n, n_e=n_e, temp_i=temp_i, temp_e=temp_e, diff_c_free=diff_c_free)
            diff_a_neg = self.get_ambipolar_diffusivity_neg(y)
            diff = self.get_diffusivities(y, diff_c_free=diff_c_free, diff_a_pos=diff_a_pos, diff_a_neg=diff_a_neg)
            wall_fluxes = self.get_wall_fluxes(y, n=n, diff_c=diff, v_m=v_m)
            source_diff_sinks = self.get_diffusion_sinks(y, wall_fluxes=wall_fluxes)
            source_diff_sources = self.get_diffusion_sources(y, diff_sinks=source_diff_sinks)
            source_diff = self.get_diffusion_source_rates(y, diff_sinks=source_diff_sinks, diff_sources=source_diff_sources)
            min_n_cor = self.get_min_n_correction(y, n=n)
            dn_dt = self.get_dn_dt(y, vol_source_rates=source_vol, flow_source_rates=source_flow, diff_source_rates=source_diff, min_n_correction=min_n_cor)
            power_ext = self.get_power_ext(t)
            drho_dt_ext = self.get_drho_dt_ext(t, power_ext=power_ext)
            el_en_losses = self.get_el_en_losses(y, temp_e=temp_e)
            drho_dt_el_inel = self.get_drho_dt_el_inel(y, el_en_losses=el_en_losses, reaction_rates=rates)
            drho_dt_gain_loss = self.get_drho_dt_gain_loss(y, temp_e=temp_e, reaction_rates=rates)
            drho_dt_el_walls = self.get_drho_dt_el_walls(y, temp_e=temp_e, diff_source_rates=source_diff)
            sh_pot = self.get_sheath_voltage(y, temp_e=temp_e)
            drho_dt_ions_walls = self.get_drho_dt_ions_walls(y, temp_e=temp_e, sh_pot=sh_pot, diff_source_rates=source_diff)
            min_rho_correction = self.get_min_rho_correction(y, rho=rho)
            drho_dt = self.get_drho_dt(t, y, ext=drho_dt_ext, el_inel=drho_dt_el_inel, gain_loss=drho_dt_gain_loss, el_walls=drho_dt_el_walls, ions_walls=drho_dt_ions_walls, min_rho_correction=min_rho_correction)
            dy_dt = self.get_dy_dt(t, y, dn_dt=dn_dt, drho_dt=drho_dt)
            return dy_dt
        if jacobian:
            raise NotImplementedError('Jacobian function not implemented!')
        return (obj_function, obj_function_jacobian)
