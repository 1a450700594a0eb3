pub mod base;
pub mod lang;
pub mod machine;
pub mod modules;
pub mod progen;
pub mod vm;
pub mod total;
pub mod wf;
pub mod compose;
pub mod faults;
pub mod corners;
pub mod decls;
pub mod tyck;
pub mod typing;
