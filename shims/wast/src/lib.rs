use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub struct Wat<'a> {
    pub module: Module<'a>,
}
pub struct Module<'a>(&'a str);

impl Module<'_> {
    pub fn encode(&mut self) -> Result<Vec<u8>, Error> {
        if self.0.contains("unencodable") {
            return Err(Error("unencodable".into()));
        }
        Ok([b"\0asm\x01\0\0\0".as_slice(), self.0.as_bytes()].concat())
    }
}

pub mod parser {
    use super::*;
    pub struct ParseBuffer<'a>(&'a str);
    impl<'a> ParseBuffer<'a> {
        pub fn new(text: &'a str) -> Result<ParseBuffer<'a>, Error> {
            if text.contains("unlexable") { Err(Error("unlexable".into())) } else { Ok(ParseBuffer(text)) }
        }
    }
    pub trait Parse<'a>: Sized {
        fn of(text: &'a str) -> Result<Self, Error>;
    }
    impl<'a> Parse<'a> for Wat<'a> {
        fn of(text: &'a str) -> Result<Self, Error> {
            if text.starts_with("(module") { Ok(Wat { module: Module(text) }) } else { Err(Error("expected `(module`".into())) }
        }
    }
    pub fn parse<'a, T: Parse<'a>>(buf: &'a ParseBuffer<'a>) -> Result<T, Error> {
        T::of(buf.0)
    }
}
