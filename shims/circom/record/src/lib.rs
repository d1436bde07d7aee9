//! One line per request: tab-separated, each field escaped.
use std::fs::OpenOptions;
use std::io::Write;

pub fn event(fields: &[String]) {
    let Ok(path) = std::env::var("CIRCOM_RECORD") else { return };
    let line = fields.iter().map(|f| f.escape_default().to_string()).collect::<Vec<_>>().join("\t");
    let mut f = OpenOptions::new().append(true).create(true).open(path).expect("the monitor's record");
    writeln!(f, "{line}").expect("the monitor's record");
}

/// whether the monitor asked this step to fail
pub fn fails(step: &str) -> bool {
    std::env::var("CIRCOM_FAIL").map_or(false, |s| s == step)
}

/// the module the stand-in compiler writes for a program
pub fn module(program: &str) -> String {
    std::env::var("CIRCOM_WAT").unwrap_or_else(|_| format!("(module ;; {program}\n)\n"))
}
