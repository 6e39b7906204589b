#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum TriState { Yes, No, Unknown }
impl From<bool> for TriState { fn from(b: bool) -> Self { if b { TriState::Yes } else { TriState::No } } }
