//! Stand-in for rpassword: there is no terminal.
pub fn prompt_password(_: impl ToString) -> std::io::Result<String> {
    Err(std::io::Error::new(std::io::ErrorKind::Other, "no terminal"))
}
