//! A logger that formats every message, so that what logging evaluates is evaluated.
use log::{LevelFilter, Log, Metadata, Record};
struct Null;
impl Log for Null {
    fn enabled(&self, _: &Metadata) -> bool {
        true
    }
    fn log(&self, r: &Record) {
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}
static NULL: Null = Null;
pub fn install() {
    let _ = log::set_logger(&NULL);
    log::set_max_level(LevelFilter::Trace);
}
