pub use std::io::{Error, ErrorKind, Result};
