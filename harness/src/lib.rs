#![allow(unexpected_cfgs)]
pub mod decode;
pub mod family;
pub mod guard;
pub mod io;
pub mod props_io;
pub mod props_format;
pub mod props_mem;
pub mod props_store;
pub mod props_sorter;
pub mod store;
pub mod util;
