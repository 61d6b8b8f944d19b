//! The standard library, except that the program's output streams and exit status go to the world.
pub use ::std::*;

#[macro_export]
macro_rules! print { ($($x:tt)*) => { $crate::put(false, ::core::format_args!($($x)*)) } }
#[macro_export]
macro_rules! eprint { ($($x:tt)*) => { $crate::put(true, ::core::format_args!($($x)*)) } }
#[macro_export]
macro_rules! println {
    () => { $crate::put(false, ::core::format_args!("\n")) };
    ($($x:tt)*) => {{ $crate::put(false, ::core::format_args!($($x)*)); $crate::put(false, ::core::format_args!("\n")) }}
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::put(true, ::core::format_args!("\n")) };
    ($($x:tt)*) => {{ $crate::put(true, ::core::format_args!($($x)*)); $crate::put(true, ::core::format_args!("\n")) }}
}
#[doc(hidden)]
pub use world::put;

pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        world::exit(code)
    }
    pub fn abort() -> ! {
        world::exit(134)
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct ExitCode(pub u8);
    impl ExitCode {
        pub const SUCCESS: ExitCode = ExitCode(0);
        pub const FAILURE: ExitCode = ExitCode(1);
        pub fn exit_process(self) -> ! {
            exit(self.0 as i32)
        }
    }
    impl From<u8> for ExitCode {
        fn from(x: u8) -> Self {
            ExitCode(x)
        }
    }
    pub trait Termination {
        fn report(self) -> ExitCode;
    }
    impl Termination for () {
        fn report(self) -> ExitCode {
            ExitCode(0)
        }
    }
    impl Termination for ExitCode {
        fn report(self) -> ExitCode {
            self
        }
    }
    impl<T: Termination, E: ::std::fmt::Debug> Termination for Result<T, E> {
        fn report(self) -> ExitCode {
            match self {
                Ok(x) => x.report(),
                Err(e) => {
                    world::put(true, format_args!("Error: {e:?}\n"));
                    ExitCode(1)
                }
            }
        }
    }
}

pub mod io {
    pub use ::std::io::*;
    macro_rules! stream {
        ($s:ident, $l:ident, $f:ident, $e:expr) => {
            #[derive(Debug)]
            pub struct $s;
            #[derive(Debug)]
            pub struct $l;
            pub fn $f() -> $s {
                $s
            }
            impl $s {
                pub fn lock(&self) -> $l {
                    $l
                }
            }
            impl Write for $s {
                fn write(&mut self, b: &[u8]) -> Result<usize> {
                    world::Put($e).bytes(b);
                    Ok(b.len())
                }
                fn flush(&mut self) -> Result<()> {
                    Ok(())
                }
            }
            impl Write for $l {
                fn write(&mut self, b: &[u8]) -> Result<usize> {
                    world::Put($e).bytes(b);
                    Ok(b.len())
                }
                fn flush(&mut self) -> Result<()> {
                    Ok(())
                }
            }
        };
    }
    stream!(Stdout, StdoutLock, stdout, false);
    stream!(Stderr, StderrLock, stderr, true);
}
