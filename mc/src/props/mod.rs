use crate::engine::{Suite, Tier};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;

pub const ASSUMPTIONS: &[&str] = &[
    "the host is 64-bit little-endian Linux (the sandbox)",
    "the reference model's constants and layouts follow linux/perf_event.h and perf_event_open(2)",
    "data sources honour the documented ParseBuf contract (no empty chunks, accurate remaining_hint)",
    "bounds: the enumerated spaces are the ones listed under suites; every index was executed",
];

pub fn suites(id: &str, t: Tier) -> Option<Vec<Suite>> {
    Some(match id {
        "C01" => c01::suites(t),
        "C02" => c02::suites(t),
        "C03" => c03::suites(t),
        "C04" => c04::suites(t),
        "C05" => c05::suites(t),
        "C06" => c06::suites(t),
        "C07" => c07::suites(t),
        "C08" => c08::suites(t),
        "C09" => c09::suites(t),
        "C10" => c10::suites(t),
        "C11" => c11::suites(t),
        "C12" => c12::suites(t),
        "C13" => c13::suites(t),
        "C14" => c14::suites(t),
        "C15" => c15::suites(t),
        "C16" => c16::suites(t),
        "C17" => c17::suites(t),
        "C18" => c18::suites(t),
        "C19" => c19::suites(t),
        "C20" => c20::suites(t),
        "C21" => c21::suites(t),
        "C22" => c22::suites(t),
        _ => return None,
    })
}

/// The spaces that are run in the Miri interpreter.
pub fn miri_suites(id: &str, t: Tier) -> Vec<Suite> {
    match id {
        "C19" => c19::build(t.pick(c19::Level::Miri, c19::Level::MiriDeep)),
        _ => vec![],
    }
}
