#[path = "../../kani/src/nd.rs"]
pub mod nd;
#[macro_use]
#[path = "../../kani/src/macros.rs"]
mod macros;
mod i04;
