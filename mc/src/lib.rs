pub mod conc;
pub mod cs;
pub mod dynamic;
pub mod gen;
pub mod hist;
pub mod live;
pub mod model;
pub mod names;
pub mod props_client;
pub mod props_codec;
pub mod props_conc;
pub mod props_eq;
pub mod props_hist;
pub mod props_io;
pub mod props_num;
pub mod props_sink;
pub mod run;
pub mod schemas;

pub const CHECKS: &[(&str, fn(&run::Run))] = &[
    ("C01", props_hist::c01),
    ("C02", props_hist::c02),
    ("C03", props_hist::c03),
    ("C04", props_hist::c04),
    ("C05", props_codec::c05),
    ("C06", props_hist::c06),
    ("C07", props_codec::c07),
    ("C08", props_codec::c08),
    ("C09", props_io::c09),
    ("C10", props_codec::c10),
    ("C11", props_codec::c11),
    ("C12", props_io::c12),
    ("C13", props_sink::c13),
    ("C14", props_conc::c14),
    ("C15", props_conc::c15),
    ("C16", props_hist::c16),
    ("C17", props_hist::c17),
    ("C18", props_hist::c18),
    ("C19", props_eq::c19),
    ("C23", props_sink::c23),
    ("C24", props_num::c24),
    ("C25", props_client::c25),
];
