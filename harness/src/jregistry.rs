// Generated by tools/gen_registry.py at development time: the generic correlators of qcd-sme,
// instantiated at the number type of sched.rs that lets other work happen between its operations.
use super::registry::Entry;
use super::sched::J;
use super::V;
use std::collections::BTreeMap;

pub fn registry() -> BTreeMap<&'static str, Entry> {
    let mut m: BTreeMap<&'static str, Entry> = BTreeMap::new();
    m.insert("low_level::common::statistic_distribution_exponential#J", (&["en", "beta", "mu"], "CRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::common::statistic_distribution_exponential(J(a[0].c()), a[1].r(), J(a[2].c())).0) }));
    m.insert("low_level::common::statistic_distribution_exponential_zero_chempot#J", (&["en", "beta"], "CR", |e, a| { let _ = e; V::C(qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(J(a[0].c()), a[1].r()).0) }));
    m.insert("low_level::oneloop::ghost::g_sep#J", (&["s", "ln_s", "ln_s_pl_1"], "CCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::g_sep(J(a[0].c()), J(a[1].c()), J(a[2].c())).0) }));
    m.insert("low_level::oneloop::ghost::g#J", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::g(J(a[0].c())).0) }));
    m.insert("low_level::oneloop::ghost::g_xi_sep#J", (&["ln_s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::g_xi_sep(J(a[0].c())).0) }));
    m.insert("low_level::oneloop::ghost::g_xi#J", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::g_xi(J(a[0].c())).0) }));
    m.insert("low_level::oneloop::ghost::dressing_inv_landau_sep#J", (&["s", "ln_s", "ln_s_pl_1", "g0"], "CCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(J(a[0].c()), J(a[1].c()), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::ghost::dressing_inv_sep#J", (&["s", "ln_s", "ln_s_pl_1", "g0", "xi"], "CCCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(J(a[0].c()), J(a[1].c()), J(a[2].c()), a[3].r(), a[4].r()).0) }));
    m.insert("low_level::oneloop::gluon::f_sep#J", (&["s", "ln_s", "ln_s_pl_1"], "CCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_sep(J(a[0].c()), J(a[1].c()), J(a[2].c())).0) }));
    m.insert("low_level::oneloop::gluon::f#J", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f(J(a[0].c())).0) }));
    m.insert("low_level::oneloop::gluon::f_xi_sep#J", (&["s", "ln_s", "ln_s_pl_1"], "CCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_xi_sep(J(a[0].c()), J(a[1].c()), J(a[2].c())).0) }));
    m.insert("low_level::oneloop::gluon::f_xi#J", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_xi(J(a[0].c())).0) }));
    m.insert("low_level::oneloop::gluon::f_q#J", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_q(J(a[0].c())).0) }));
    m.insert("low_level::oneloop::gluon::f_q_crossed#J", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_q_crossed(J(a[0].c())).0) }));
    m.insert("low_level::oneloop::gluon::ym_dressing_inv_landau_sep#J", (&["s", "ln_s", "ln_s_pl_1", "f0"], "CCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(J(a[0].c()), J(a[1].c()), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::gluon::ym_dressing_inv_sep#J", (&["s", "ln_s", "ln_s_pl_1", "f0", "xi"], "CCCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(J(a[0].c()), J(a[1].c()), J(a[2].c()), a[3].r(), a[4].r()).0) }));
    m.insert("low_level::oneloop::thermal::tlog#J", (&["q", "om", "p", "en", "delta"], "RCRCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()))) }));
    m.insert("low_level::oneloop::thermal::tlog_same_mass#J", (&["q", "om", "p", "en"], "RCCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()))) }));
    m.insert("low_level::oneloop::thermal::tlog_zero_mass#J", (&["q", "om", "p"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_l#J", (&["q", "om", "p", "en", "delta"], "RCRCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()))) }));
    m.insert("low_level::oneloop::thermal::tlog_l_same_mass#J", (&["q", "om", "p", "en"], "RCRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()))) }));
    m.insert("low_level::oneloop::thermal::tlog_l_zero_mass#J", (&["q", "om", "p"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_t#J", (&["q", "om", "p", "en", "delta"], "RCRCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()))) }));
    m.insert("low_level::oneloop::thermal::tlog_t_same_mass#J", (&["q", "om", "p", "en"], "RCRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()))) }));
    m.insert("low_level::oneloop::thermal::tlog_t_zero_mass#J", (&["q", "om", "p"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::j_m_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::j_m_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::j_m_l_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::j_m_l_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::j_m_t_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::j_m_t_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::i_m_m_i#J", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_i_same_mass#J", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_i#J", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_i#J", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_l_i#J", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_l_i_same_mass#J", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_l_i#J", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_l_i#J", (&["q", "om", "p", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_t_i#J", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_t_i_same_mass#J", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_t_i#J", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_t_i#J", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_m_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::d_j_m_l_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_l_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::d_j_m_t_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_t_i#J", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(a[0].r(), J(a[1].c()), a[2].r()).0) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_i#J", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_i_same_mass#J", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_i#J", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_i#J", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_l_i#J", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_l_i_same_mass#J", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_l_i#J", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_l_i#J", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_t_i#J", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), J(a[4].c()), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#J", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_t_0_i#J", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_t_i#J", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a[0].r(), J(a[1].c()), a[2].r(), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_t_i#J", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i#J", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method#J", (&["om", "p", "m", "beta", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau#J", (&["om", "p", "m", "beta"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i#J", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method#J", (&["om", "m", "beta", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau#J", (&["om", "m", "beta"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(J(a[0].c()), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i#J", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i#J", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i#J", (&["q", "om", "p", "mq", "beta", "mu"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i#J", (&["q", "om", "p", "mq", "beta", "mu"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i#J", (&["q", "om", "p", "mq", "mu"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i#J", (&["q", "om", "p", "mq", "mu"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#J", (&["om", "p", "m", "beta", "integral"], "CCRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method#J", (&["om", "p", "m", "beta", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#J", (&["om", "p", "mq", "beta", "mu", "integral"], "CCRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].r(), a[5].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method#J", (&["om", "p", "mq", "beta", "mu", "integral"], "CRRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#J", (&["om", "p", "mq", "mu", "integral"], "CCRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method#J", (&["om", "p", "mq", "mu", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#J", (&["om", "p", "m", "beta"], "CCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau#J", (&["om", "p", "m", "beta"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#J", (&["om", "p", "mq", "beta", "mu"], "CCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau#J", (&["om", "p", "mq", "beta", "mu"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#J", (&["om", "p", "mq", "mu"], "CCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau#J", (&["om", "p", "mq", "mu"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i#J", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i#J", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i#J", (&["q", "om", "mq", "beta", "mu"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r()).0) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i#J", (&["q", "om", "mq", "beta", "mu"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r(), a[4].r()).0) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i#J", (&["q", "om", "mq", "mu"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i#J", (&["q", "om", "mq", "mu"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].r(), J(a[1].c()), a[2].r(), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method#J", (&["om", "m", "beta", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method#J", (&["om", "m", "beta", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method#J", (&["om", "mq", "beta", "mu", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method#J", (&["om", "mq", "beta", "mu", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method#J", (&["om", "mq", "mu", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method#J", (&["om", "mq", "mu", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(J(a[0].c()), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau#J", (&["om", "m", "beta"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(J(a[0].c()), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau#J", (&["om", "m", "beta"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(J(a[0].c()), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau#J", (&["om", "mq", "beta", "mu"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau#J", (&["om", "mq", "beta", "mu"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau#J", (&["om", "mq", "mu"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau#J", (&["om", "mq", "mu"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog#J", (&["q", "p", "delta"], "RRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(a[0].r(), a[1].r(), J(a[2].c()))) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog_t#J", (&["q", "p", "delta"], "RRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(a[0].r(), a[1].r(), J(a[2].c()))) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_i#J", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a[0].r(), a[1].r(), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a[0].r(), a[1].r(), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_i#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a[0].r(), a[1].r(), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#J", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a[0].r(), a[1].r(), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a[0].r(), a[1].r(), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a[0].r(), a[1].r(), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#J", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a[0].r(), a[1].r(), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a[0].r(), a[1].r(), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a[0].r(), a[1].r(), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#J", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a[0].r(), a[1].r(), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a[0].r(), a[1].r(), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a[0].r(), a[1].r(), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#J", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a[0].r(), a[1].r(), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a[0].r(), a[1].r(), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a[0].r(), a[1].r(), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#J", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a[0].r(), a[1].r(), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a[0].r(), a[1].r(), J(a[2].c()), a[3].r()).0) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a[0].r(), a[1].r(), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i#J", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a[0].r(), a[1].r(), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_i#J", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_i#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_i#J", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_l_i#J", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_l_i#J", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_t_i#J", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_t_i#J", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_i#J", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_i#J", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i#J", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i#J", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i#J", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].r(), J(a[1].c()), J(a[2].c()), J(a[3].c()), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#J", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a[0].r(), J(a[1].c()), J(a[2].c()), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i#J", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a[0].r(), J(a[1].c()), a[2].r())) }));
    m.insert("ym::ghost::dressing_inv_landau#J", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::dressing_inv_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("ym::ghost::dressing_inv#J", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::dressing_inv(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("ym::ghost::dressing_landau#J", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::dressing_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("ym::ghost::dressing#J", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::dressing(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("ym::ghost::propagator_landau#J", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::propagator_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("ym::ghost::propagator#J", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::propagator(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("ym::gluon::dressing_inv_landau#J", (&["s", "f0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::dressing_inv_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("ym::gluon::dressing_inv#J", (&["s", "f0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::dressing_inv(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("ym::gluon::dressing_landau#J", (&["s", "f0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::dressing_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("ym::gluon::dressing#J", (&["s", "f0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::dressing(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("ym::gluon::propagator_landau#J", (&["s", "f0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::propagator_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("ym::gluon::propagator#J", (&["s", "f0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::propagator(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("ym::thermal::ghost::dressing_inv_landau#J", (&["om", "p", "m", "beta", "g0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::ghost::dressing_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_l_inv_landau#J", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_t_inv_landau#J", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_l_landau#J", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_l_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_t_landau#J", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_t_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::propagator_l_landau#J", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::propagator_l_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::propagator_t_landau#J", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::propagator_t_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::dressing_inv_landau#J", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::dressing_landau#J", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::propagator_landau#J", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_l_inv_landau#J", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_t_inv_landau#J", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_l_landau#J", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_t_landau#J", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::propagator_l_landau#J", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::propagator_t_landau#J", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_inv_landau#J", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_inv_landau(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::gluon::dressing_inv#J", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_inv(J(a[0].c()), a[1].r(), a[2].r(), a[3].r()).0) }));
    m.insert("qcd::gluon::dressing_landau#J", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_landau(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::gluon::dressing#J", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing(J(a[0].c()), a[1].r(), a[2].r(), a[3].r()).0) }));
    m.insert("qcd::gluon::propagator_landau#J", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_landau(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::gluon::propagator#J", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator(J(a[0].c()), a[1].r(), a[2].r(), a[3].r()).0) }));
    m.insert("qcd::gluon::dressing_crossed_inv_landau#J", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_landau(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::gluon::dressing_crossed_inv#J", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_inv(J(a[0].c()), a[1].r(), a[2].r(), a[3].r()).0) }));
    m.insert("qcd::gluon::dressing_crossed_landau#J", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_landau(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::gluon::dressing_crossed#J", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed(J(a[0].c()), a[1].r(), a[2].r(), a[3].r()).0) }));
    m.insert("qcd::gluon::propagator_crossed_landau#J", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_crossed_landau(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::gluon::propagator_crossed#J", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_crossed(J(a[0].c()), a[1].r(), a[2].r(), a[3].r()).0) }));
    m.insert("qcd::gluon::dressing_inv_landau_w_field_config#J", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].cfg(e)).0) }));
    m.insert("qcd::gluon::dressing_inv_w_field_config#J", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_inv_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e)).0) }));
    m.insert("qcd::gluon::dressing_landau_w_field_config#J", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].cfg(e)).0) }));
    m.insert("qcd::gluon::dressing_w_field_config#J", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e)).0) }));
    m.insert("qcd::gluon::propagator_landau_w_field_config#J", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].cfg(e)).0) }));
    m.insert("qcd::gluon::propagator_w_field_config#J", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e)).0) }));
    m.insert("qcd::gluon::dressing_crossed_inv_landau_w_field_config#J", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].cfg(e)).0) }));
    m.insert("qcd::gluon::dressing_crossed_inv_w_field_config#J", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e)).0) }));
    m.insert("qcd::gluon::dressing_crossed_landau_w_field_config#J", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].cfg(e)).0) }));
    m.insert("qcd::gluon::dressing_crossed_w_field_config#J", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e)).0) }));
    m.insert("qcd::gluon::propagator_crossed_landau_w_field_config#J", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].cfg(e)).0) }));
    m.insert("qcd::gluon::propagator_crossed_w_field_config#J", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_crossed_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e)).0) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_landau#J", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_landau#J", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_landau#J", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_landau#J", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::propagator_l_landau#J", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::propagator_t_landau#J", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_zero_temp_landau#J", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_zero_temp_landau#J", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_zero_temp_landau#J", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_zero_temp_landau#J", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::propagator_l_zero_temp_landau#J", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::propagator_t_zero_temp_landau#J", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#J", (&["om", "p", "beta", "mu", "f0", "config"], "CCRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_landau_w_field_config#J", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_landau_w_field_config#J", (&["om", "p", "beta", "mu", "f0", "config"], "CCRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_landau_w_field_config#J", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_l_landau_w_field_config#J", (&["om", "p", "beta", "mu", "f0", "config"], "CCRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_t_landau_w_field_config#J", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#J", (&["om", "p", "mu", "f0", "config"], "CCRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config#J", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#J", (&["om", "p", "mu", "f0", "config"], "CCRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config#J", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#J", (&["om", "p", "mu", "f0", "config"], "CCRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(J(a[0].c()), J(a[1].c()), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config#J", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau#J", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau#J", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_landau#J", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_landau#J", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_landau#J", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_landau#J", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau#J", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau#J", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau#J", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau#J", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau#J", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau#J", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config#J", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config#J", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config#J", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config#J", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config#J", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config#J", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config#J", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config#J", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config#J", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config#J", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config#J", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config#J", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(J(a[0].c()), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::ghost::dressing_inv_landau#J", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::dressing_inv_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("qcd::ghost::dressing_inv#J", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::dressing_inv(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::ghost::dressing_landau#J", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::dressing_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("qcd::ghost::dressing#J", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::dressing(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::ghost::propagator_landau#J", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::propagator_landau(J(a[0].c()), a[1].r()).0) }));
    m.insert("qcd::ghost::propagator#J", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::propagator(J(a[0].c()), a[1].r(), a[2].r()).0) }));
    m.insert("qcd::thermal::ghost::dressing_inv_landau#J", (&["om", "p", "m", "beta", "g0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::ghost::dressing_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::dressing_inv_landau#J", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::dressing_landau#J", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::propagator_landau#J", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::propagator_landau(J(a[0].c()), a[1].r(), a[2].r(), a[3].r())) }));
    m
}
