//! Stand-in for powdr's parser utilities: a place in a source file.
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct SourceRef {
    pub file_name: Option<Arc<str>>,
    pub file_contents: Option<Arc<str>>,
    pub start: usize,
    pub end: usize,
}
