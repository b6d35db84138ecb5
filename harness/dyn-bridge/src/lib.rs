//! The bridge program as a loadable library: its entrypoint has the same symbol name as the asset program's.
extern crate bridge_program;
include!("../../dyn_common.rs");
