// Generated by tools/gen_registry.py at development time: the public native functions of
// qcd-sme, one entry per instantiation of their generic parameters.
use super::{Env, V};
use std::collections::BTreeMap;

pub type Entry = (&'static [&'static str], &'static str, fn(&Env, &[V]) -> V);

pub fn registry() -> BTreeMap<&'static str, Entry> {
    let mut m: BTreeMap<&'static str, Entry> = BTreeMap::new();
    m.insert("common::energy_squared#R", (&["p", "m"], "RR", |e, a| { let _ = e; V::R(qcd_sme::common::energy_squared(a[0].r(), a[1].r())) }));
    m.insert("common::energy_squared#C", (&["p", "m"], "RC", |e, a| { let _ = e; V::C(qcd_sme::common::energy_squared(a[0].r(), a[1].c())) }));
    m.insert("common::energy#R", (&["p", "m"], "RR", |e, a| { let _ = e; V::R(qcd_sme::common::energy(a[0].r(), a[1].r())) }));
    m.insert("common::energy#C", (&["p", "m"], "RC", |e, a| { let _ = e; V::C(qcd_sme::common::energy(a[0].r(), a[1].c())) }));
    m.insert("common::thermal::fermi_momentum", (&["m", "mu"], "RR", |e, a| { let _ = e; V::R(qcd_sme::common::thermal::fermi_momentum(a[0].r(), a[1].r())) }));
    m.insert("common::thermal::fermi_distribution#RR", (&["en", "beta", "mu"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::common::thermal::fermi_distribution(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("common::thermal::fermi_distribution#CC", (&["en", "beta", "mu"], "CRC", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution(a[0].c(), a[1].r(), a[2].c())) }));
    m.insert("common::thermal::fermi_distribution#CR", (&["en", "beta", "mu"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("common::thermal::fermi_distribution_zero_temp#RR", (&["en", "mu"], "RR", |e, a| { let _ = e; V::R(qcd_sme::common::thermal::fermi_distribution_zero_temp(a[0].r(), a[1].r())) }));
    m.insert("common::thermal::fermi_distribution_zero_temp#CC", (&["en", "mu"], "CC", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution_zero_temp(a[0].c(), a[1].c())) }));
    m.insert("common::thermal::fermi_distribution_zero_temp#CR", (&["en", "mu"], "CR", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution_zero_temp(a[0].c(), a[1].r())) }));
    m.insert("common::thermal::fermi_distribution_double#RR", (&["en", "beta", "mu"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::common::thermal::fermi_distribution_double(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("common::thermal::fermi_distribution_double#CC", (&["en", "beta", "mu"], "CRC", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution_double(a[0].c(), a[1].r(), a[2].c())) }));
    m.insert("common::thermal::fermi_distribution_double#CR", (&["en", "beta", "mu"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution_double(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("common::thermal::fermi_distribution_double_zero_temp#RR", (&["en", "mu"], "RR", |e, a| { let _ = e; V::R(qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a[0].r(), a[1].r())) }));
    m.insert("common::thermal::fermi_distribution_double_zero_temp#CC", (&["en", "mu"], "CC", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a[0].c(), a[1].c())) }));
    m.insert("common::thermal::fermi_distribution_double_zero_temp#CR", (&["en", "mu"], "CR", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a[0].c(), a[1].r())) }));
    m.insert("common::thermal::fermi_distribution_zero_chempot#R", (&["en", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::common::thermal::fermi_distribution_zero_chempot(a[0].r(), a[1].r())) }));
    m.insert("common::thermal::fermi_distribution_zero_chempot#C", (&["en", "beta"], "CR", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::fermi_distribution_zero_chempot(a[0].c(), a[1].r())) }));
    m.insert("common::thermal::bose_distribution#RR", (&["en", "beta", "mu"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::common::thermal::bose_distribution(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("common::thermal::bose_distribution#CC", (&["en", "beta", "mu"], "CRC", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::bose_distribution(a[0].c(), a[1].r(), a[2].c())) }));
    m.insert("common::thermal::bose_distribution#CR", (&["en", "beta", "mu"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::bose_distribution(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("common::thermal::bose_distribution_zero_chempot#R", (&["en", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::common::thermal::bose_distribution_zero_chempot(a[0].r(), a[1].r())) }));
    m.insert("common::thermal::bose_distribution_zero_chempot#C", (&["en", "beta"], "CR", |e, a| { let _ = e; V::C(qcd_sme::common::thermal::bose_distribution_zero_chempot(a[0].c(), a[1].r())) }));
    m.insert("low_level::common::statistic_distribution_exponential#RR", (&["en", "beta", "mu"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::common::statistic_distribution_exponential(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::common::statistic_distribution_exponential#CC", (&["en", "beta", "mu"], "CRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::common::statistic_distribution_exponential(a[0].c(), a[1].r(), a[2].c())) }));
    m.insert("low_level::common::statistic_distribution_exponential#CR", (&["en", "beta", "mu"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::common::statistic_distribution_exponential(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("low_level::common::statistic_distribution_exponential_zero_chempot#R", (&["en", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(a[0].r(), a[1].r())) }));
    m.insert("low_level::common::statistic_distribution_exponential_zero_chempot#C", (&["en", "beta"], "CR", |e, a| { let _ = e; V::C(qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(a[0].c(), a[1].r())) }));
    m.insert("low_level::oneloop::ghost::g_sep#R", (&["s", "ln_s", "ln_s_pl_1"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::ghost::g_sep(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::ghost::g_sep#C", (&["s", "ln_s", "ln_s_pl_1"], "CCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::g_sep(a[0].c(), a[1].c(), a[2].c())) }));
    m.insert("low_level::oneloop::ghost::g#R", (&["s"], "R", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::ghost::g(a[0].r())) }));
    m.insert("low_level::oneloop::ghost::g#C", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::g(a[0].c())) }));
    m.insert("low_level::oneloop::ghost::g_xi_sep#R", (&["ln_s"], "R", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::ghost::g_xi_sep(a[0].r())) }));
    m.insert("low_level::oneloop::ghost::g_xi_sep#C", (&["ln_s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::g_xi_sep(a[0].c())) }));
    m.insert("low_level::oneloop::ghost::g_xi#R", (&["s"], "R", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::ghost::g_xi(a[0].r())) }));
    m.insert("low_level::oneloop::ghost::g_xi#C", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::g_xi(a[0].c())) }));
    m.insert("low_level::oneloop::ghost::dressing_inv_landau_sep#R", (&["s", "ln_s", "ln_s_pl_1", "g0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::ghost::dressing_inv_landau_sep#C", (&["s", "ln_s", "ln_s_pl_1", "g0"], "CCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(a[0].c(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::ghost::dressing_inv_sep#R", (&["s", "ln_s", "ln_s_pl_1", "g0", "xi"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::ghost::dressing_inv_sep#C", (&["s", "ln_s", "ln_s_pl_1", "g0", "xi"], "CCCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(a[0].c(), a[1].c(), a[2].c(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::gluon::f_sep#R", (&["s", "ln_s", "ln_s_pl_1"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::gluon::f_sep(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::gluon::f_sep#C", (&["s", "ln_s", "ln_s_pl_1"], "CCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_sep(a[0].c(), a[1].c(), a[2].c())) }));
    m.insert("low_level::oneloop::gluon::f#R", (&["s"], "R", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::gluon::f(a[0].r())) }));
    m.insert("low_level::oneloop::gluon::f#C", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f(a[0].c())) }));
    m.insert("low_level::oneloop::gluon::f_xi_sep#R", (&["s", "ln_s", "ln_s_pl_1"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::gluon::f_xi_sep(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::gluon::f_xi_sep#C", (&["s", "ln_s", "ln_s_pl_1"], "CCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_xi_sep(a[0].c(), a[1].c(), a[2].c())) }));
    m.insert("low_level::oneloop::gluon::f_xi#R", (&["s"], "R", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::gluon::f_xi(a[0].r())) }));
    m.insert("low_level::oneloop::gluon::f_xi#C", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_xi(a[0].c())) }));
    m.insert("low_level::oneloop::gluon::f_q#R", (&["s"], "R", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::gluon::f_q(a[0].r())) }));
    m.insert("low_level::oneloop::gluon::f_q#C", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_q(a[0].c())) }));
    m.insert("low_level::oneloop::gluon::f_q_crossed#R", (&["s"], "R", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::gluon::f_q_crossed(a[0].r())) }));
    m.insert("low_level::oneloop::gluon::f_q_crossed#C", (&["s"], "C", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::f_q_crossed(a[0].c())) }));
    m.insert("low_level::oneloop::gluon::ym_dressing_inv_landau_sep#R", (&["s", "ln_s", "ln_s_pl_1", "f0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::gluon::ym_dressing_inv_landau_sep#C", (&["s", "ln_s", "ln_s_pl_1", "f0"], "CCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a[0].c(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::gluon::ym_dressing_inv_sep#R", (&["s", "ln_s", "ln_s_pl_1", "f0", "xi"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::gluon::ym_dressing_inv_sep#C", (&["s", "ln_s", "ln_s_pl_1", "f0", "xi"], "CCCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(a[0].c(), a[1].c(), a[2].c(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::tlog#RRR", (&["q", "om", "p", "en", "delta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::tlog#CCC", (&["q", "om", "p", "en", "delta"], "RCRCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c())) }));
    m.insert("low_level::oneloop::thermal::tlog#CRR", (&["q", "om", "p", "en", "delta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_same_mass#RRR", (&["q", "om", "p", "en"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_same_mass#CCC", (&["q", "om", "p", "en"], "RCCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].c())) }));
    m.insert("low_level::oneloop::thermal::tlog_same_mass#CRR", (&["q", "om", "p", "en"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_zero_mass#R", (&["q", "om", "p"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_zero_mass#C", (&["q", "om", "p"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_l#RRR", (&["q", "om", "p", "en", "delta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_l#CCC", (&["q", "om", "p", "en", "delta"], "RCRCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c())) }));
    m.insert("low_level::oneloop::thermal::tlog_l#CRR", (&["q", "om", "p", "en", "delta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_l_same_mass#RR", (&["q", "om", "p", "en"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_l_same_mass#CC", (&["q", "om", "p", "en"], "RCRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].c())) }));
    m.insert("low_level::oneloop::thermal::tlog_l_same_mass#CR", (&["q", "om", "p", "en"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_l_zero_mass#R", (&["q", "om", "p"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_l_zero_mass#C", (&["q", "om", "p"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_t#RRR", (&["q", "om", "p", "en", "delta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_t#CCC", (&["q", "om", "p", "en", "delta"], "RCRCC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c())) }));
    m.insert("low_level::oneloop::thermal::tlog_t#CRR", (&["q", "om", "p", "en", "delta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_t_same_mass#RR", (&["q", "om", "p", "en"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_t_same_mass#CC", (&["q", "om", "p", "en"], "RCRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].c())) }));
    m.insert("low_level::oneloop::thermal::tlog_t_same_mass#CR", (&["q", "om", "p", "en"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_t_zero_mass#R", (&["q", "om", "p"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::tlog_t_zero_mass#C", (&["q", "om", "p"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::j_m_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::j_m_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::j_m_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::j_m_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::j_0_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::j_0_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::j_m_l_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::j_m_l_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::j_m_l_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::j_m_l_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::j_0_l_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::j_0_l_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::j_m_t_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::j_m_t_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::j_m_t_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::j_m_t_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::j_0_t_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::j_0_t_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_i#RRR", (&["q", "om", "p", "m1", "m2", "beta"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_i#CCC", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_i#CRR", (&["q", "om", "p", "m1", "m2", "beta"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_i_same_mass#RRR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_i_same_mass#CCC", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_i_same_mass#CRR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_i#RRR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_i#CCC", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_i#CRR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_i#R", (&["q", "om", "p", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_i#C", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_l_i#RRR", (&["q", "om", "p", "m1", "m2", "beta"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_l_i#CCC", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_l_i#CRR", (&["q", "om", "p", "m1", "m2", "beta"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_l_i_same_mass#RRR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_l_i_same_mass#CCC", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_l_i_same_mass#CRR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_l_i#RRR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_l_i#CCC", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_l_i#CRR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_l_i#RR", (&["q", "om", "p", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_l_i#CC", (&["q", "om", "p", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_l_i#CR", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_t_i#RRR", (&["q", "om", "p", "m1", "m2", "beta"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_t_i#CCC", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_t_i#CRR", (&["q", "om", "p", "m1", "m2", "beta"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_t_i_same_mass#RR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_t_i_same_mass#CC", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_m_t_i_same_mass#CR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_t_i#RR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_t_i#CC", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_m_0_t_i#CR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_t_i#R", (&["q", "om", "p", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::i_0_0_t_i#C", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_m_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d_j_m_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_m_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_0_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d_j_0_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d2_j_m_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_0_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d2_j_0_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_m_l_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_m_l_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_0_l_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d_j_0_l_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_l_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_l_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_0_l_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d2_j_0_l_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_m_t_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_m_t_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d_j_0_t_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d_j_0_t_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_t_i#R", (&["q", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_m_t_i#C", (&["q", "m", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::d2_j_0_t_i", (&["q", "beta"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::d2_j_0_t_i(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_i#RRR", (&["q", "om", "p", "m1", "m2", "beta"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_i#CCC", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_i#CRR", (&["q", "om", "p", "m1", "m2", "beta"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_i_same_mass#RRR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_i_same_mass#CCC", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_i_same_mass#CRR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_i#RRR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_i#CCC", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_i#CRR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_i#R", (&["q", "om", "p", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_i#C", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_l_i#RRR", (&["q", "om", "p", "m1", "m2", "beta"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_l_i#CCC", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_l_i#CRR", (&["q", "om", "p", "m1", "m2", "beta"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_l_i_same_mass#RRR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_l_i_same_mass#CCC", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_l_i_same_mass#CRR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_l_i#RRR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_l_i#CCC", (&["q", "om", "p", "m", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_l_i#CRR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_l_i#R", (&["q", "om", "p", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_l_i#C", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_t_i#RRR", (&["q", "om", "p", "m1", "m2", "beta"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_t_i#CCC", (&["q", "om", "p", "m1", "m2", "beta"], "RCRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].c(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_t_i#CRR", (&["q", "om", "p", "m1", "m2", "beta"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#RR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#CC", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_m_t_i_same_mass#CR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_t_0_i#RR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_t_0_i#CC", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_t_0_i#CR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_t_i#RR", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_t_i#CC", (&["q", "om", "p", "m", "beta"], "RCRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_m_0_t_i#CR", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_t_i#R", (&["q", "om", "p", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::d_i_0_0_t_i#C", (&["q", "om", "p", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i#R", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i#C", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method#R", (&["om", "p", "m", "beta", "integral"], "RRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method#C", (&["om", "p", "m", "beta", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau#R", (&["om", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau#C", (&["om", "p", "m", "beta"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method", (&["p", "m", "beta", "integral"], "RRRI", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau", (&["p", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i#R", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i#C", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method#R", (&["om", "m", "beta", "integral"], "RRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method#C", (&["om", "m", "beta", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau#R", (&["om", "m", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau#C", (&["om", "m", "beta"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i#R", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i#C", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i#R", (&["q", "om", "p", "m", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i#C", (&["q", "om", "p", "m", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i#R", (&["q", "om", "p", "mq", "beta", "mu"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i#C", (&["q", "om", "p", "mq", "beta", "mu"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i#R", (&["q", "om", "p", "mq", "beta", "mu"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i#C", (&["q", "om", "p", "mq", "beta", "mu"], "RCRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i#R", (&["q", "om", "p", "mq", "mu"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i#C", (&["q", "om", "p", "mq", "mu"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i#R", (&["q", "om", "p", "mq", "mu"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i#C", (&["q", "om", "p", "mq", "mu"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#RR", (&["om", "p", "m", "beta", "integral"], "RRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#CC", (&["om", "p", "m", "beta", "integral"], "CCRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method#CR", (&["om", "p", "m", "beta", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method#R", (&["om", "p", "m", "beta", "integral"], "RRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method#C", (&["om", "p", "m", "beta", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#RR", (&["om", "p", "mq", "beta", "mu", "integral"], "RRRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#CC", (&["om", "p", "mq", "beta", "mu", "integral"], "CCRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method#CR", (&["om", "p", "mq", "beta", "mu", "integral"], "CRRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method#R", (&["om", "p", "mq", "beta", "mu", "integral"], "RRRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method#C", (&["om", "p", "mq", "beta", "mu", "integral"], "CRRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#RR", (&["om", "p", "mq", "mu", "integral"], "RRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#CC", (&["om", "p", "mq", "mu", "integral"], "CCRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method#CR", (&["om", "p", "mq", "mu", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method#R", (&["om", "p", "mq", "mu", "integral"], "RRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method#C", (&["om", "p", "mq", "mu", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#RR", (&["om", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#CC", (&["om", "p", "m", "beta"], "CCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a[0].c(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau#CR", (&["om", "p", "m", "beta"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau#R", (&["om", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau#C", (&["om", "p", "m", "beta"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#RR", (&["om", "p", "mq", "beta", "mu"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#CC", (&["om", "p", "mq", "beta", "mu"], "CCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau#CR", (&["om", "p", "mq", "beta", "mu"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau#R", (&["om", "p", "mq", "beta", "mu"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau#C", (&["om", "p", "mq", "beta", "mu"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#RR", (&["om", "p", "mq", "mu"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#CC", (&["om", "p", "mq", "mu"], "CCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a[0].c(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau#CR", (&["om", "p", "mq", "mu"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau#R", (&["om", "p", "mq", "mu"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau#C", (&["om", "p", "mq", "mu"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i", (&["q", "p", "mq", "beta", "mu"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i", (&["q", "p", "mq", "beta", "mu"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i", (&["q", "p", "mq", "mu"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i", (&["q", "p", "mq", "mu"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method", (&["p", "m", "beta", "integral"], "RRRI", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method", (&["p", "m", "beta", "integral"], "RRRI", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method", (&["p", "mq", "beta", "mu", "integral"], "RRRRI", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method", (&["p", "mq", "beta", "mu", "integral"], "RRRRI", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method", (&["p", "mq", "mu", "integral"], "RRRI", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method", (&["p", "mq", "mu", "integral"], "RRRI", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau", (&["p", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau", (&["p", "m", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau", (&["p", "mq", "beta", "mu"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau", (&["p", "mq", "beta", "mu"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau", (&["p", "mq", "mu"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau", (&["p", "mq", "mu"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i#R", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i#C", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i#R", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i#C", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i#R", (&["q", "om", "mq", "beta", "mu"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i#C", (&["q", "om", "mq", "beta", "mu"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i#R", (&["q", "om", "mq", "beta", "mu"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i#C", (&["q", "om", "mq", "beta", "mu"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i#R", (&["q", "om", "mq", "mu"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i#C", (&["q", "om", "mq", "mu"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i#R", (&["q", "om", "mq", "mu"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i#C", (&["q", "om", "mq", "mu"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method#R", (&["om", "m", "beta", "integral"], "RRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method#C", (&["om", "m", "beta", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method#R", (&["om", "m", "beta", "integral"], "RRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method#C", (&["om", "m", "beta", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method#R", (&["om", "mq", "beta", "mu", "integral"], "RRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method#C", (&["om", "mq", "beta", "mu", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method#R", (&["om", "mq", "beta", "mu", "integral"], "RRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method#C", (&["om", "mq", "beta", "mu", "integral"], "CRRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method#R", (&["om", "mq", "mu", "integral"], "RRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method#C", (&["om", "mq", "mu", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method#R", (&["om", "mq", "mu", "integral"], "RRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method#C", (&["om", "mq", "mu", "integral"], "CRRI", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0].c(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau#R", (&["om", "m", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau#C", (&["om", "m", "beta"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau#R", (&["om", "m", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau#C", (&["om", "m", "beta"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau#R", (&["om", "mq", "beta", "mu"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau#C", (&["om", "mq", "beta", "mu"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau#R", (&["om", "mq", "beta", "mu"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau#C", (&["om", "mq", "beta", "mu"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau#R", (&["om", "mq", "mu"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau#C", (&["om", "mq", "mu"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau#R", (&["om", "mq", "mu"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau#C", (&["om", "mq", "mu"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog#R", (&["q", "p", "delta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog#C", (&["q", "p", "delta"], "RRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(a[0].r(), a[1].r(), a[2].c())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog_same_mass", (&["q", "p"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_same_mass(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass", (&["q", "p"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog_t#R", (&["q", "p", "delta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog_t#C", (&["q", "p", "delta"], "RRC", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(a[0].r(), a[1].r(), a[2].c())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass", (&["q", "p"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass", (&["q", "p"], "RR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass(a[0].r(), a[1].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_i#RR", (&["q", "p", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_i#CC", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a[0].r(), a[1].r(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_i#CR", (&["q", "p", "m1", "m2", "beta"], "RRCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a[0].r(), a[1].r(), a[2].c(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_i#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_i#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_0_0_i", (&["q", "p", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#RR", (&["q", "p", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#CC", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a[0].r(), a[1].r(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i#CR", (&["q", "p", "m1", "m2", "beta"], "RRCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a[0].r(), a[1].r(), a[2].c(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i", (&["q", "p", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#RR", (&["q", "p", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#CC", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a[0].r(), a[1].r(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i#CR", (&["q", "p", "m1", "m2", "beta"], "RRCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a[0].r(), a[1].r(), a[2].c(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i", (&["q", "p", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#RR", (&["q", "p", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#CC", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a[0].r(), a[1].r(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i#CR", (&["q", "p", "m1", "m2", "beta"], "RRCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a[0].r(), a[1].r(), a[2].c(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i", (&["q", "p", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#RR", (&["q", "p", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#CC", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a[0].r(), a[1].r(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i#CR", (&["q", "p", "m1", "m2", "beta"], "RRCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a[0].r(), a[1].r(), a[2].c(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i", (&["q", "p", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#RR", (&["q", "p", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#CC", (&["q", "p", "m1", "m2", "beta"], "RRCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a[0].r(), a[1].r(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i#CR", (&["q", "p", "m1", "m2", "beta"], "RRCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a[0].r(), a[1].r(), a[2].c(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i#R", (&["q", "p", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i#C", (&["q", "p", "m", "beta"], "RRCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a[0].r(), a[1].r(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i", (&["q", "p", "beta"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_i#RRR", (&["q", "om", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_i#CCC", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_i#CRR", (&["q", "om", "m1", "m2", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_i#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_i#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_i#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_i#R", (&["q", "om", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_i#C", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_l_i#RRR", (&["q", "om", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_l_i#CCC", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_l_i#CRR", (&["q", "om", "m1", "m2", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_l_i#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_l_i#R", (&["q", "om", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_l_i#C", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_t_i#RRR", (&["q", "om", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_t_i#CCC", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_t_i#CRR", (&["q", "om", "m1", "m2", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_m_0_t_i#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_t_i#R", (&["q", "om", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::i_0_0_t_i#C", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_i#RRR", (&["q", "om", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_i#CCC", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_i#CRR", (&["q", "om", "m1", "m2", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_i#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_i#R", (&["q", "om", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_i#C", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i#RRR", (&["q", "om", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i#CCC", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i#CRR", (&["q", "om", "m1", "m2", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i#R", (&["q", "om", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i#C", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i#RRR", (&["q", "om", "m1", "m2", "beta"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i#CCC", (&["q", "om", "m1", "m2", "beta"], "RCCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].r(), a[1].c(), a[2].c(), a[3].c(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i#CRR", (&["q", "om", "m1", "m2", "beta"], "RCRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#RR", (&["q", "om", "m", "beta"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#CC", (&["q", "om", "m", "beta"], "RCCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a[0].r(), a[1].c(), a[2].c(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i#CR", (&["q", "om", "m", "beta"], "RCRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a[0].r(), a[1].c(), a[2].r(), a[3].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i#R", (&["q", "om", "beta"], "RRR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i#C", (&["q", "om", "beta"], "RCR", |e, a| { let _ = e; V::C(qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a[0].r(), a[1].c(), a[2].r())) }));
    m.insert("ym::ghost::dressing_inv_landau#R", (&["s", "g0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::ym::ghost::dressing_inv_landau(a[0].r(), a[1].r())) }));
    m.insert("ym::ghost::dressing_inv_landau#C", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::dressing_inv_landau(a[0].c(), a[1].r())) }));
    m.insert("ym::ghost::dressing_inv#R", (&["s", "g0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::ym::ghost::dressing_inv(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("ym::ghost::dressing_inv#C", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::dressing_inv(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("ym::ghost::dressing_landau#R", (&["s", "g0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::ym::ghost::dressing_landau(a[0].r(), a[1].r())) }));
    m.insert("ym::ghost::dressing_landau#C", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::dressing_landau(a[0].c(), a[1].r())) }));
    m.insert("ym::ghost::dressing#R", (&["s", "g0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::ym::ghost::dressing(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("ym::ghost::dressing#C", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::dressing(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("ym::ghost::propagator_landau#R", (&["s", "g0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::ym::ghost::propagator_landau(a[0].r(), a[1].r())) }));
    m.insert("ym::ghost::propagator_landau#C", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::propagator_landau(a[0].c(), a[1].r())) }));
    m.insert("ym::ghost::propagator#R", (&["s", "g0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::ym::ghost::propagator(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("ym::ghost::propagator#C", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::ghost::propagator(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("ym::gluon::dressing_inv_landau#R", (&["s", "f0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::ym::gluon::dressing_inv_landau(a[0].r(), a[1].r())) }));
    m.insert("ym::gluon::dressing_inv_landau#C", (&["s", "f0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::dressing_inv_landau(a[0].c(), a[1].r())) }));
    m.insert("ym::gluon::dressing_inv#R", (&["s", "f0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::ym::gluon::dressing_inv(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("ym::gluon::dressing_inv#C", (&["s", "f0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::dressing_inv(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("ym::gluon::dressing_landau#R", (&["s", "f0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::ym::gluon::dressing_landau(a[0].r(), a[1].r())) }));
    m.insert("ym::gluon::dressing_landau#C", (&["s", "f0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::dressing_landau(a[0].c(), a[1].r())) }));
    m.insert("ym::gluon::dressing#R", (&["s", "f0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::ym::gluon::dressing(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("ym::gluon::dressing#C", (&["s", "f0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::dressing(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("ym::gluon::propagator_landau#R", (&["s", "f0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::ym::gluon::propagator_landau(a[0].r(), a[1].r())) }));
    m.insert("ym::gluon::propagator_landau#C", (&["s", "f0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::propagator_landau(a[0].c(), a[1].r())) }));
    m.insert("ym::gluon::propagator#R", (&["s", "f0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::ym::gluon::propagator(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("ym::gluon::propagator#C", (&["s", "f0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::ym::gluon::propagator(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("ym::thermal::ghost::dressing_inv_landau#R", (&["om", "p", "m", "beta", "g0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::ghost::dressing_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::ghost::dressing_inv_landau#C", (&["om", "p", "m", "beta", "g0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::ghost::dressing_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::ghost::dressing_landau", (&["om", "p", "m", "beta", "g0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::ghost::dressing_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::ghost::propagator_landau", (&["om", "p", "m", "beta", "g0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::ghost::propagator_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_l_inv_landau#R", (&["om", "p", "m", "beta", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_l_inv_landau#C", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_t_inv_landau#R", (&["om", "p", "m", "beta", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_t_inv_landau#C", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_l_landau#R", (&["om", "p", "m", "beta", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_l_landau#C", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_l_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_t_landau#R", (&["om", "p", "m", "beta", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::dressing_t_landau#C", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::dressing_t_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::propagator_l_landau#R", (&["om", "p", "m", "beta", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::propagator_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::propagator_l_landau#C", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::propagator_l_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::propagator_t_landau#R", (&["om", "p", "m", "beta", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::propagator_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::gluon::propagator_t_landau#C", (&["om", "p", "m", "beta", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::gluon::propagator_t_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("ym::thermal::zero_matsubara::ghost::dressing_inv_landau", (&["p", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_matsubara::ghost::dressing_landau", (&["p", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_matsubara::ghost::propagator_landau", (&["p", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::ghost::propagator_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau", (&["p", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau", (&["p", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_matsubara::gluon::dressing_l_landau", (&["p", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_matsubara::gluon::dressing_t_landau", (&["p", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_matsubara::gluon::propagator_l_landau", (&["p", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_matsubara::gluon::propagator_t_landau", (&["p", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::dressing_inv_landau#R", (&["om", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::dressing_inv_landau#C", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::dressing_landau#R", (&["om", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::dressing_landau#C", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::propagator_landau#R", (&["om", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::ghost::propagator_landau#C", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_l_inv_landau#R", (&["om", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_l_inv_landau#C", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_t_inv_landau#R", (&["om", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_t_inv_landau#C", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_l_landau#R", (&["om", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_l_landau#C", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_t_landau#R", (&["om", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::dressing_t_landau#C", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::propagator_l_landau#R", (&["om", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::propagator_l_landau#C", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::propagator_t_landau#R", (&["om", "m", "beta", "f0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("ym::thermal::zero_momentum::gluon::propagator_t_landau#C", (&["om", "m", "beta", "f0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_inv_landau#R", (&["s", "mq", "f0"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_inv_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::dressing_inv_landau#C", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_inv_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::dressing_inv#R", (&["s", "mq", "f0", "xi"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_inv(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_inv#C", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_inv(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_landau#R", (&["s", "mq", "f0"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::dressing_landau#C", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::dressing#R", (&["s", "mq", "f0", "xi"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing#C", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::propagator_landau#R", (&["s", "mq", "f0"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::propagator_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::propagator_landau#C", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::propagator#R", (&["s", "mq", "f0", "xi"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::propagator(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::propagator#C", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_crossed_inv_landau#R", (&["s", "mq", "f0"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_crossed_inv_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::dressing_crossed_inv_landau#C", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::dressing_crossed_inv#R", (&["s", "mq", "f0", "xi"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_crossed_inv(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_crossed_inv#C", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_inv(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_crossed_landau#R", (&["s", "mq", "f0"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_crossed_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::dressing_crossed_landau#C", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::dressing_crossed#R", (&["s", "mq", "f0", "xi"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_crossed(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_crossed#C", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::propagator_crossed_landau#R", (&["s", "mq", "f0"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::propagator_crossed_landau(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::propagator_crossed_landau#C", (&["s", "mq", "f0"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_crossed_landau(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::gluon::propagator_crossed#R", (&["s", "mq", "f0", "xi"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::propagator_crossed(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::propagator_crossed#C", (&["s", "mq", "f0", "xi"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_crossed(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::gluon::dressing_inv_landau_w_field_config#R", (&["s", "f0", "config"], "RRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(a[0].r(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::dressing_inv_landau_w_field_config#C", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(a[0].c(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::dressing_inv_w_field_config#R", (&["s", "f0", "xi", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_inv_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::dressing_inv_w_field_config#C", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_inv_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::dressing_landau_w_field_config#R", (&["s", "f0", "config"], "RRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_landau_w_field_config(a[0].r(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::dressing_landau_w_field_config#C", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_landau_w_field_config(a[0].c(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::dressing_w_field_config#R", (&["s", "f0", "xi", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::dressing_w_field_config#C", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::propagator_landau_w_field_config#R", (&["s", "f0", "config"], "RRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::propagator_landau_w_field_config(a[0].r(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::propagator_landau_w_field_config#C", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_landau_w_field_config(a[0].c(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::propagator_w_field_config#R", (&["s", "f0", "xi", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::propagator_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::propagator_w_field_config#C", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::dressing_crossed_inv_landau_w_field_config#R", (&["s", "f0", "config"], "RRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a[0].r(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::dressing_crossed_inv_landau_w_field_config#C", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a[0].c(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::dressing_crossed_inv_w_field_config#R", (&["s", "f0", "xi", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::dressing_crossed_inv_w_field_config#C", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::dressing_crossed_landau_w_field_config#R", (&["s", "f0", "config"], "RRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(a[0].r(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::dressing_crossed_landau_w_field_config#C", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(a[0].c(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::dressing_crossed_w_field_config#R", (&["s", "f0", "xi", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::dressing_crossed_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::dressing_crossed_w_field_config#C", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::dressing_crossed_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::propagator_crossed_landau_w_field_config#R", (&["s", "f0", "config"], "RRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(a[0].r(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::propagator_crossed_landau_w_field_config#C", (&["s", "f0", "config"], "CRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(a[0].c(), a[1].r(), a[2].cfg(e))) }));
    m.insert("qcd::gluon::propagator_crossed_w_field_config#R", (&["s", "f0", "xi", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::gluon::propagator_crossed_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::gluon::propagator_crossed_w_field_config#C", (&["s", "f0", "xi", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::gluon::propagator_crossed_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_landau#R", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "RRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_landau#C", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_landau#R", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "RRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_landau#C", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_landau#R", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "RRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_landau#C", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_landau#R", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "RRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_landau#C", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::propagator_l_landau#R", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "RRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::propagator_l_landau#C", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::propagator_t_landau#R", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "RRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::propagator_t_landau#C", (&["om", "p", "m", "mq", "beta", "mu", "f0"], "CRRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r(), a[6].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_zero_temp_landau#R", (&["om", "p", "m", "mq", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_zero_temp_landau#C", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_zero_temp_landau#R", (&["om", "p", "m", "mq", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_zero_temp_landau#C", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_zero_temp_landau#R", (&["om", "p", "m", "mq", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_zero_temp_landau#C", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_zero_temp_landau#R", (&["om", "p", "m", "mq", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_t_zero_temp_landau#C", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::propagator_l_zero_temp_landau#R", (&["om", "p", "m", "mq", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::propagator_l_zero_temp_landau#C", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::propagator_t_zero_temp_landau#R", (&["om", "p", "m", "mq", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::propagator_t_zero_temp_landau#C", (&["om", "p", "m", "mq", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#RR", (&["om", "p", "beta", "mu", "f0", "config"], "RRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#CC", (&["om", "p", "beta", "mu", "f0", "config"], "CCRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_landau_w_field_config#CR", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_landau_w_field_config#R", (&["om", "p", "beta", "mu", "f0", "config"], "RRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_landau_w_field_config#C", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_landau_w_field_config#RR", (&["om", "p", "beta", "mu", "f0", "config"], "RRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_landau_w_field_config#CC", (&["om", "p", "beta", "mu", "f0", "config"], "CCRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_landau_w_field_config#CR", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_landau_w_field_config#R", (&["om", "p", "beta", "mu", "f0", "config"], "RRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_landau_w_field_config#C", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_l_landau_w_field_config#RR", (&["om", "p", "beta", "mu", "f0", "config"], "RRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_l_landau_w_field_config#CC", (&["om", "p", "beta", "mu", "f0", "config"], "CCRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_l_landau_w_field_config#CR", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_t_landau_w_field_config#R", (&["om", "p", "beta", "mu", "f0", "config"], "RRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_t_landau_w_field_config#C", (&["om", "p", "beta", "mu", "f0", "config"], "CRRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#RR", (&["om", "p", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#CC", (&["om", "p", "mu", "f0", "config"], "CCRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config#CR", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config#R", (&["om", "p", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config#C", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#RR", (&["om", "p", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#CC", (&["om", "p", "mu", "f0", "config"], "CCRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config#CR", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config#R", (&["om", "p", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config#C", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#RR", (&["om", "p", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#CC", (&["om", "p", "mu", "f0", "config"], "CCRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].c(), a[1].c(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config#CR", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config#R", (&["om", "p", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config#C", (&["om", "p", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::quark::charge_density_with_method", (&["m", "beta", "mu", "integral"], "RRRI", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::quark::charge_density_with_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("qcd::thermal::quark::charge_density", (&["m", "beta", "mu"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::quark::charge_density(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::thermal::quark::charge_density_zero_temp", (&["m", "mu"], "RR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::quark::charge_density_zero_temp(a[0].r(), a[1].r())) }));
    m.insert("qcd::thermal::quark::chemical_potential_with_method", (&["m", "beta", "n", "integral"], "RRRI", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::quark::chemical_potential_with_method(a[0].r(), a[1].r(), a[2].r(), a[3].integral())) }));
    m.insert("qcd::thermal::quark::chemical_potential", (&["m", "beta", "n"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::quark::chemical_potential(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::thermal::quark::chemical_potential_zero_temp", (&["m", "n"], "RR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::quark::chemical_potential_zero_temp(a[0].r(), a[1].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau", (&["p", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau", (&["p", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_l_landau", (&["p", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_t_landau", (&["p", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::propagator_l_landau", (&["p", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::propagator_t_landau", (&["p", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau", (&["p", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau", (&["p", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau", (&["p", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau", (&["p", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau", (&["p", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau", (&["p", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config", (&["p", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config", (&["p", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config", (&["p", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config", (&["p", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config", (&["p", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config", (&["p", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config", (&["p", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config", (&["p", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config", (&["p", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config", (&["p", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config", (&["p", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config", (&["p", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau#R", (&["om", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau#C", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau#R", (&["om", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau#C", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_landau#R", (&["om", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_landau#C", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_landau#R", (&["om", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_landau#C", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_landau#R", (&["om", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_landau#C", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_landau#R", (&["om", "m", "mq", "beta", "mu", "f0"], "RRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_landau#C", (&["om", "m", "mq", "beta", "mu", "f0"], "CRRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r(), a[5].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau#R", (&["om", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau#C", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau#R", (&["om", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau#C", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau#R", (&["om", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau#C", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau#R", (&["om", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau#C", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau#R", (&["om", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau#C", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau#R", (&["om", "m", "mq", "mu", "f0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau#C", (&["om", "m", "mq", "mu", "f0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config#R", (&["om", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config#C", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config#R", (&["om", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config#C", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config#R", (&["om", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config#C", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config#R", (&["om", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config#C", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config#R", (&["om", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config#C", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config#R", (&["om", "beta", "mu", "f0", "config"], "RRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config#C", (&["om", "beta", "mu", "f0", "config"], "CRRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config#R", (&["om", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config#C", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config#R", (&["om", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config#C", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config#R", (&["om", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config#C", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config#R", (&["om", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config#C", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config#R", (&["om", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config#C", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config#R", (&["om", "mu", "f0", "config"], "RRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a[0].r(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config#C", (&["om", "mu", "f0", "config"], "CRRF", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a[0].c(), a[1].r(), a[2].r(), a[3].cfg(e))) }));
    m.insert("qcd::ghost::dressing_inv_landau#R", (&["s", "g0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::qcd::ghost::dressing_inv_landau(a[0].r(), a[1].r())) }));
    m.insert("qcd::ghost::dressing_inv_landau#C", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::dressing_inv_landau(a[0].c(), a[1].r())) }));
    m.insert("qcd::ghost::dressing_inv#R", (&["s", "g0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::ghost::dressing_inv(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::ghost::dressing_inv#C", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::dressing_inv(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::ghost::dressing_landau#R", (&["s", "g0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::qcd::ghost::dressing_landau(a[0].r(), a[1].r())) }));
    m.insert("qcd::ghost::dressing_landau#C", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::dressing_landau(a[0].c(), a[1].r())) }));
    m.insert("qcd::ghost::dressing#R", (&["s", "g0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::ghost::dressing(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::ghost::dressing#C", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::dressing(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::ghost::propagator_landau#R", (&["s", "g0"], "RR", |e, a| { let _ = e; V::R(qcd_sme::qcd::ghost::propagator_landau(a[0].r(), a[1].r())) }));
    m.insert("qcd::ghost::propagator_landau#C", (&["s", "g0"], "CR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::propagator_landau(a[0].c(), a[1].r())) }));
    m.insert("qcd::ghost::propagator#R", (&["s", "g0", "xi"], "RRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::ghost::propagator(a[0].r(), a[1].r(), a[2].r())) }));
    m.insert("qcd::ghost::propagator#C", (&["s", "g0", "xi"], "CRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::ghost::propagator(a[0].c(), a[1].r(), a[2].r())) }));
    m.insert("qcd::thermal::ghost::dressing_inv_landau#R", (&["om", "p", "m", "beta", "g0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::ghost::dressing_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::ghost::dressing_inv_landau#C", (&["om", "p", "m", "beta", "g0"], "CRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::ghost::dressing_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::ghost::dressing_landau", (&["om", "p", "m", "beta", "g0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::ghost::dressing_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::ghost::propagator_landau", (&["om", "p", "m", "beta", "g0"], "RRRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::ghost::propagator_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r(), a[4].r())) }));
    m.insert("qcd::thermal::zero_matsubara::ghost::dressing_inv_landau", (&["p", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::ghost::dressing_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_matsubara::ghost::dressing_landau", (&["p", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::ghost::dressing_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_matsubara::ghost::propagator_landau", (&["p", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::R(qcd_sme::qcd::thermal::zero_matsubara::ghost::propagator_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::dressing_inv_landau#R", (&["om", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::dressing_inv_landau#C", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::dressing_landau#R", (&["om", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::dressing_landau#C", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::propagator_landau#R", (&["om", "m", "beta", "g0"], "RRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::propagator_landau(a[0].r(), a[1].r(), a[2].r(), a[3].r())) }));
    m.insert("qcd::thermal::zero_momentum::ghost::propagator_landau#C", (&["om", "m", "beta", "g0"], "CRRR", |e, a| { let _ = e; V::C(qcd_sme::qcd::thermal::zero_momentum::ghost::propagator_landau(a[0].c(), a[1].r(), a[2].r(), a[3].r())) }));
    m
}
