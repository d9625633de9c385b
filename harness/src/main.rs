//! `mc <check> <property> [args] [--thorough]`
#![allow(dead_code)]
mod cluster;
mod explore;
mod par;
mod report;
mod rows;
mod sched;
mod sess;
mod store;
mod tables;
mod world;
mod checks {
    pub mod crash;
    pub mod equiv;
    pub mod faults;
    pub mod probe;
    pub mod prune;
    pub mod race;
    pub mod subsets;
    pub mod tables;
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    sess::init();
    let rest = args.get(1..).unwrap_or_default();
    match args.first().map(String::as_str) {
        Some("crash") => checks::crash::main(rest),
        Some("faults") => checks::faults::main(rest),
        Some("equiv") => checks::equiv::main(rest),
        Some("probe") => checks::probe::main(rest),
        Some("prune") => checks::prune::main(rest),
        Some("race") => checks::race::main(rest),
        Some("tables") => checks::tables::main(rest),
        _ => report::broken("unknown check"),
    }
}
