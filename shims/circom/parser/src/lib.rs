use program_structure::{error_definition::{Report, ReportCollection}, file_definition::FileLibrary, program_archive::ProgramArchive};
use std::path::PathBuf;

pub fn run_parser(file: String, version: &str, link_libraries: Vec<PathBuf>)
    -> Result<(ProgramArchive, ReportCollection), (FileLibrary, ReportCollection)> {
    let mut e = vec!["parse".to_string(), file.clone(), version.to_string()];
    e.extend(link_libraries.iter().map(|p| p.to_string_lossy().into_owned()));
    circom_record::event(&e);
    match std::fs::read_to_string(&file) {
        Ok(source) if !circom_record::fails("parse") => Ok((ProgramArchive { file_library: FileLibrary, source }, vec![])),
        _ => Err((FileLibrary, vec![Report("parse".into())])),
    }
}
