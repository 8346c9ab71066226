pub mod cli;
pub mod docs;
pub mod engine;
pub mod gen;
pub mod layout;
pub mod histories;
pub mod names;
pub mod refparse;
pub mod render;
pub mod resolve;
pub mod sut;
pub mod tree;
pub mod projects;
pub mod robust;
