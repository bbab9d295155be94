//! Stand-in for parse-display: the derives linkspace uses and their error.
pub use parse_display_derive::{Display, FromStr};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError(());
impl ParseError {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        ParseError(())
    }
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("parse error")
    }
}
impl std::error::Error for ParseError {}
