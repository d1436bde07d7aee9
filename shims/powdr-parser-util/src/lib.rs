//! Stand-in: the one type of powdr-parser-util that /repo uses.
use std::sync::Arc;
#[derive(Clone, Debug, Default)]
pub struct SourceRef {
    pub file_name: Option<Arc<str>>,
    pub file_contents: Option<Arc<str>>,
    pub start: usize,
    pub end: usize,
}
