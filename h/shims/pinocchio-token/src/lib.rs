//! Offline stand-in: /repo/program only imports (and never uses) this type.
pub mod instructions { pub struct Transfer; }
