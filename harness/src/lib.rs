pub mod checks;
pub mod diff;
pub mod corpus;
pub mod gen;
pub mod gx;
pub mod hole;
pub mod oracle;
pub mod rng;
pub mod run;
pub mod sexp;
pub mod tok;
