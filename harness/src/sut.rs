//! Runs the real parser through its public API.
use crate::cap;
use crate::refp::Goal;
use crate::sup;
use crate::v::V;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Ok(V),
    Err { line: usize, col: usize, debug: String, display: String, unexpected: Option<String> },
    /// the parser (or serialising its tree) panicked
    Panic(String),
}

impl Obs {
    pub fn short(&self) -> String {
        match self {
            Obs::Ok(v) => format!("tree {}", v.to_json()),
            Obs::Err { debug, .. } => format!("error {}", debug),
            Obs::Panic(m) => format!("panic {}", m),
        }
    }
}

pub fn err_obs(e: &giron::GironError) -> Obs {
    let unexpected = match &e.errortype {
        giron::GironErrorType::UnexpectedToken(s) => Some(s.clone()),
        _ => None,
    };
    Obs::Err { line: e.line, col: e.col, debug: format!("{:?}", e), display: format!("{}", e), unexpected }
}

pub fn raw(src: &str, goal: Goal) -> Result<giron::EstreeNode, giron::GironError> {
    match goal {
        Goal::Script => giron::parse_script(src.to_string()),
        Goal::Module => giron::parse_module(src.to_string()),
    }
}

pub fn run(src: &str, goal: Goal) -> Obs {
    sup::enter(src, goal);
    let r = catch_unwind(AssertUnwindSafe(|| match raw(src, goal) {
        Ok(n) => match cap::capture(&n) {
            Ok(v) => Obs::Ok(v),
            Err(e) => Obs::Panic(format!("tree does not serialise: {}", e)),
        },
        Err(e) => err_obs(&e),
    }));
    sup::leave();
    match r {
        Ok(o) => o,
        Err(_) => Obs::Panic(sup::last_panic()),
    }
}
