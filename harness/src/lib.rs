pub mod ast;
pub mod crash;
pub mod e2e;
pub mod expr;
pub mod fragments;
pub mod gen;
pub mod grammar;
pub mod html;
pub mod inproc;
pub mod lints;
pub mod prof;
pub mod real;
pub mod report;
pub mod run;
pub mod syntax;
pub mod synth;
pub mod systematic;
pub mod tables;
pub mod tape;
