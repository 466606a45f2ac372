pub mod engine;
pub mod sim;
pub use engine::*;
pub use sim::*;
