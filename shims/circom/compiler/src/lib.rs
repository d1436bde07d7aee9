pub mod hir {
    pub mod very_concrete_program {
        pub struct VCP {
            pub source: String,
            pub prime: String,
        }
    }
}
pub mod compiler_interface {
    pub use crate::hir::very_concrete_program::VCP;
    use std::path::Path;

    pub struct Config {
        pub debug_output: bool,
        pub produce_input_log: bool,
        pub wat_flag: bool,
    }
    pub struct Circuit(String);

    pub fn run_compiler(vcp: VCP, _: Config, version: &str) -> Result<Circuit, ()> {
        circom_record::event(&["compile".into(), vcp.source.clone(), vcp.prime, version.into()]);
        if circom_record::fails("compile") { Err(()) } else { Ok(Circuit(vcp.source)) }
    }
    pub fn write_c(_: &Circuit, folder: &str, run_name: &str, file: &str, dat: &str) -> Result<(), ()> {
        circom_record::event(&["c".into(), folder.into(), run_name.into(), file.into(), dat.into()]);
        Ok(())
    }
    /// circom (2.1.2) replaces the folder and writes the helper scripts and the text module there
    pub fn write_wasm(c: &Circuit, js_folder: &str, wasm_name: &str, file: &str) -> Result<(), ()> {
        circom_record::event(&["wasm".into(), js_folder.into(), wasm_name.into(), file.into()]);
        if circom_record::fails("wasm") {
            return Err(());
        }
        std::fs::create_dir_all(Path::new(js_folder)).map_err(|_| ())?;
        std::fs::write(Path::new(js_folder).join("generate_witness.js"), wasm_name).map_err(|_| ())?;
        std::fs::write(file, circom_record::module(&c.0)).map_err(|_| ())
    }
}
