//! Stands in for patharg: the input is the world's.
use std::fmt;
use std::io::{self, Read};
pub type InputArgReader = world::Input;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct InputArg;
impl InputArg {
    pub fn open(&self) -> io::Result<InputArgReader> {
        world::Input::open(world::get())
    }
    pub fn read(&self) -> io::Result<Vec<u8>> {
        let mut v = Vec::new();
        self.open()?.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn read_to_string(&self) -> io::Result<String> {
        let mut v = String::new();
        self.open()?.read_to_string(&mut v)?;
        Ok(v)
    }
    pub fn is_stdin(&self) -> bool {
        false
    }
    pub fn is_path(&self) -> bool {
        true
    }
}
impl fmt::Display for InputArg {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("input")
    }
}
impl clap::Field for InputArg {
    fn field() -> Self {
        InputArg
    }
}
