pub mod errs;
pub mod json;
pub mod probe;
pub mod reader;
pub mod run;
pub mod schema;
pub mod source;
pub mod text;
pub mod writer;
