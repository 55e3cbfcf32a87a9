//! Consumers of the soft assertion: when it evaluates its condition, what it gives back, and what happens when it fails.
pub fn plain(mut f: impl FnMut() -> bool) -> bool {
  always::always!(f())
}
pub fn message(mut f: impl FnMut() -> bool, x: u32) -> bool {
  always::always!(f(), "message {x}")
}
pub fn message_args(mut f: impl FnMut() -> bool, x: u32) -> bool {
  always::always!(f(), "message {}", x)
}
