//! Deterministic simulation of the concordance crate. See /verif/DESIGN.md.
#![allow(dead_code)]

mod core;
mod driver;
mod env;
mod nfa;
mod p_adapt;
mod p_build;
mod p_cost;
mod p_fail;
mod p_match;
mod p_pipe;
mod p_ser;
mod p_stack;
mod p_split;
mod p_tag;
mod p_tape;
mod p_tok;
mod pat;
mod props;
mod srcs;
mod syms;

fn main() {
    driver::main()
}
