//! Stream generators shared with the harness.
use crate::jpeg::*;
use crate::util::*;
#[path = "../../harness/src/checks/bases.rs"]
pub mod bases;
