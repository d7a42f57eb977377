pub mod lib_core;
pub mod lib_io;

#[cfg(feature = "apply")]
pub mod lib_apply;
#[cfg(feature = "changes")]
pub mod lib_changes;
#[cfg(feature = "cli")]
pub mod cli;
#[cfg(feature = "cmds")]
pub mod cmds;
#[cfg(feature = "det")]
pub mod det;
#[cfg(feature = "unified")]
pub mod unified;
#[cfg(feature = "views")]
pub mod views;
