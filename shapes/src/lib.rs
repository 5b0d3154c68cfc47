pub use json;
pub use vmacro;
