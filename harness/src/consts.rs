//! The constants of the model, written down independently of the code under test (IAU 2009, IAU 2015
//! resolution B3, CODATA 2017).
pub const HOUR: f64 = 3600.;
pub const DAY: f64 = 86400.;
pub const M_SUN: f64 = 1.9818e30;
pub const M_EARTH: f64 = 1. / 332946.050895;
pub const G_SI: f64 = 6.67428e-11;
pub const AU: f64 = 1.49597870700e11;
pub const M2AU: f64 = 1. / AU;
pub const C: f64 = 2.99792458e8 / AU * DAY;
pub const SPEED_OF_LIGHT_2: f64 = C * C;
pub const R_SUN: f64 = 6.957e8 / AU;
pub const R_EARTH: f64 = 6.3781e6 / AU;
pub const K2: f64 = G_SI / (AU * AU * AU) * M_SUN * DAY * DAY;
pub const SUN_DYN_FREQ_2: f64 = K2 / (R_SUN * R_SUN * R_SUN);
pub const SMOOTHING_FACTOR_DYN_TIDE_COROTATION: f64 = 1.0e-5 * 86400.;
pub const BOLTZMANN_CONSTANT: f64 = 1.380649e-23 / (M_SUN * AU * AU) * DAY * DAY;
pub const MASS_HYDROGEN_ATOM: f64 = 1.672162841e-27 / M_SUN;
pub const MAX_DISTANCE: f64 = 100.;
