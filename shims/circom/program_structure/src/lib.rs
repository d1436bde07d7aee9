pub mod file_definition {
    #[derive(Clone, Default)]
    pub struct FileLibrary;
}
pub mod error_definition {
    use crate::file_definition::FileLibrary;
    pub struct Report(pub String);
    pub type ReportCollection = Vec<Report>;
    impl Report {
        pub fn print_reports(reports: &[Report], _: &FileLibrary) {
            circom_record::event(&["reports".into(), reports.len().to_string()]);
            for r in reports {
                eprintln!("{}", r.0);
            }
        }
    }
}
pub mod program_archive {
    use crate::file_definition::FileLibrary;
    pub struct ProgramArchive {
        pub file_library: FileLibrary,
        /// what travels with the program through the stages
        pub source: String,
    }
    impl ProgramArchive {
        pub fn get_file_library(&self) -> &FileLibrary {
            &self.file_library
        }
    }
}
