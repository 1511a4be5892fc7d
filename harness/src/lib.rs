pub mod cfggen;
pub mod engine;
pub mod gen;
pub mod layout;
pub mod lualex;
pub mod luaparse;
pub mod props;
pub mod sut;
