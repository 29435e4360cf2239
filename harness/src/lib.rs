//! Entry points that the symbolic executor explores (and the replayer runs natively).
pub mod checks;
pub mod cmp;
pub mod fs;
pub mod gen;
pub mod model;
pub mod ser;
pub mod sym;
pub mod init;
