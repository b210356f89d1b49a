//! Programs that use the macros of /repo.  rustc expands them on every run; the expansion is
//! what is verified (contracts/macro) and run (src/main.rs).
#![allow(dead_code, unused_imports)]
use aj::job;

/// the documented example, with a result
#[job]
fn hello(name: String) -> String {
    name
}

pub mod more {
    use aj::job;

    #[job]
    async fn swap_two(a: i64, b: i64) -> (i64, i64) {
        (b, a)
    }

    /// no argument
    #[job]
    async fn seven() -> u32 {
        7
    }

    /// nothing returned, comma after the last argument
    #[job]
    pub fn quiet(_name: String, _n: u64,) {}

    /// an argument its body changes
    #[job]
    pub async fn at_most_ten(mut n: u32, tag: u8) -> (u32, u8) {
        if n > 10 {
            n = 10;
        }
        (n, tag)
    }

    /// arguments of one type, a result that can fail
    #[job]
    pub async fn rot4(a: u8, b: u8, c: u8, fail: bool) -> Result<(u8, u8, u8), u8> {
        if fail {
            Err(b)
        } else {
            Ok((c, a, b))
        }
    }

    /// argument names the generated code uses itself
    #[job]
    fn names_v2(msg: u64, job_id: Option<u64>) -> u64 {
        match job_id {
            Some(x) => x,
            None => msg,
        }
    }

    /// six arguments of one type
    #[allow(clippy::too_many_arguments)]
    #[job]
    pub(crate) async fn step2_six_args(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16) -> ((u16, u16, u16), (u16, u16, u16)) {
        ((b, a, d), (c, f, e))
    }

    /// one letter, an argument of the same name, no underscore
    #[job]
    fn x(x: i8) -> i8 {
        x
    }
}
pub mod again {
    use super::more::*;
    use aj::job;

    /// texts
    #[job]
    async fn send_email(to: String, subject: String, body: String) -> (String, String) {
        (subject, to)
    }
}

/// types that derive the trait
pub mod fx_derive {
    use aj::{async_trait, BackgroundJob, Executable, JobContext};
    use serde::{Deserialize, Serialize};

    #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone, PartialEq)]
    pub struct Print {
        pub number: i32,
        pub text: String,
    }
    #[async_trait]
    impl Executable for Print {
        type Output = i32;
        async fn execute(&mut self, _context: &JobContext) -> i32 {
            self.number
        }
    }

    #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone, PartialEq)]
    pub struct Pair(pub u8, pub u8);
    #[async_trait]
    impl Executable for Pair {
        type Output = u8;
        async fn execute(&mut self, _context: &JobContext) -> u8 {
            self.1
        }
    }

    #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone, PartialEq)]
    pub enum Task2 {
        One,
        Many(u64),
    }
    #[async_trait]
    impl Executable for Task2 {
        type Output = bool;
        async fn execute(&mut self, _context: &JobContext) -> bool {
            match self {
                Task2::One => true,
                Task2::Many(_) => false,
            }
        }
    }
}

/// names of all kinds
#[allow(non_camel_case_types)]
pub mod fx_names {
    use aj::{async_trait, BackgroundJob, Executable, JobContext};
    use serde::{Deserialize, Serialize};
    macro_rules! names {
        ($($t:ident)*) => { $(
            #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone, PartialEq)]
            pub struct $t {
                pub n: u8,
            }
            #[async_trait]
            impl Executable for $t {
                type Output = u8;
                async fn execute(&mut self, _context: &JobContext) -> u8 {
                    self.n
                }
            }
        )* };
    }
    names!(Send SendJob JobSend Job2 A snake_case_type HTTPClient X9 AVeryLongNameOfAJobTypeThatGoesOnAndOnForMoreThanSixtyFourCharacters0123456789 Queue queue send);
}
