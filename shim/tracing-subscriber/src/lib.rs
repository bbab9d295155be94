//! Stand-in for tracing-subscriber: nothing is logged.
pub struct EnvFilter;
pub struct Builder;
impl EnvFilter {
    pub fn builder() -> Builder {
        Builder
    }
}
impl Builder {
    pub fn with_default_directive(self, _: Directive) -> Builder {
        self
    }
    pub fn from_env(self) -> Result<EnvFilter, std::convert::Infallible> {
        Ok(EnvFilter)
    }
}
pub struct Directive;
impl From<tracing::metadata::LevelFilter> for Directive {
    fn from(_: tracing::metadata::LevelFilter) -> Directive {
        Directive
    }
}
pub struct Fmt;
pub fn fmt() -> Fmt {
    Fmt
}
impl Fmt {
    pub fn with_env_filter(self, _: EnvFilter) -> Fmt {
        self
    }
    pub fn with_writer<W>(self, _: W) -> Fmt {
        self
    }
    pub fn init(self) {}
}
