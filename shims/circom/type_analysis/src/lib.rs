pub mod check_types {
    use program_structure::{error_definition::{Report, ReportCollection}, program_archive::ProgramArchive};
    pub fn check_types(program: &mut ProgramArchive) -> Result<ReportCollection, ReportCollection> {
        circom_record::event(&["types".into(), program.source.clone()]);
        if circom_record::fails("types") { Err(vec![Report("types".into())]) } else { Ok(vec![]) }
    }
}
