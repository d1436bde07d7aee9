use compiler::hir::very_concrete_program::VCP;
use constraint_writers::{debug_writer::DebugWriter, ConstraintExporter};
use program_structure::program_archive::ProgramArchive;

pub struct BuildConfig {
    pub no_rounds: usize,
    pub flag_json_sub: bool,
    pub json_substitutions: String,
    pub flag_s: bool,
    pub flag_f: bool,
    pub flag_p: bool,
    pub flag_verbose: bool,
    pub flag_old_heuristics: bool,
    pub inspect_constraints: bool,
    pub prime: String,
}

struct Exporter(String);

impl Exporter {
    fn write(&self, step: &str, out: &str, extra: &str) -> Result<(), ()> {
        circom_record::event(&[step.into(), out.into(), extra.into()]);
        if circom_record::fails(step) {
            return Err(());
        }
        std::fs::write(out, format!("{step} of {}", self.0)).map_err(|_| ())
    }
}

impl ConstraintExporter for Exporter {
    fn r1cs(&self, out: &str, custom_gates: bool) -> Result<(), ()> {
        self.write("r1cs", out, &custom_gates.to_string())
    }
    fn sym(&self, out: &str) -> Result<(), ()> {
        self.write("sym", out, "")
    }
    fn json_constraints(&self, w: &DebugWriter) -> Result<(), ()> {
        self.write("json", &w.json_constraints, "")
    }
}

pub fn build_circuit(program: ProgramArchive, c: BuildConfig) -> Result<(Box<dyn ConstraintExporter>, VCP), ()> {
    circom_record::event(&[
        "build".into(), program.source.clone(), c.no_rounds.to_string(), format!("s={}", c.flag_s), format!("f={}", c.flag_f), c.prime.clone(),
    ]);
    if circom_record::fails("build") {
        return Err(());
    }
    Ok((Box::new(Exporter(program.source.clone())), VCP { source: program.source, prime: c.prime }))
}
