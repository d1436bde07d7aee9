pub mod debug_writer {
    #[derive(Clone)]
    pub struct DebugWriter {
        pub json_constraints: String,
    }
    impl DebugWriter {
        pub fn new(c: String) -> Result<DebugWriter, ()> {
            Ok(DebugWriter { json_constraints: c })
        }
    }
}
pub trait ConstraintExporter {
    fn r1cs(&self, out: &str, custom_gates: bool) -> Result<(), ()>;
    fn json_constraints(&self, writer: &debug_writer::DebugWriter) -> Result<(), ()>;
    fn sym(&self, out: &str) -> Result<(), ()>;
}
