pub mod dict;
pub mod engine;
pub mod ebnf;
pub mod cfg;
pub mod trees;
pub mod lexmodel;
pub mod rx;
pub mod pipeline;
pub mod props;
