//! The property table

use crate::core::{Ctx, Res};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Ctx) -> Res<()>,
    /// Simulated runs in the quick tier
    pub quick: u64,
    /// Simulated runs in the thorough tier
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
}

macro_rules! p {
    ($id:expr, $f:path, $quick:expr, $rule:expr, $real:expr) => {
        Prop { id: $id, run: $f, quick: $quick, thorough: $quick * 50, rule: $rule, real: $real }
    };
}

pub static PROPS: &[Prop] = &[
    p!("C01", crate::p_match::c01, 300000,
        "one run = one random pattern and input, delivered through several readers and entry points with random faults; non-trivial = the pattern has repetition, choice or range structure and the input is longer than 1 symbol or the verdict needed look-ahead",
        &["regular_pattern", "ndfa", "overlapping_symbols", "dfa_compiler", "symbol_range_dfa", "pattern_matcher", "matches", "prepare", "countable"]),
    p!("C02", crate::p_match::c02, 240000,
        "one run = a random token set in several insertion orders; non-trivial = at least two patterns match the same longest string",
        &["tokenizer::TokenMatcher", "ndfa", "dfa_compiler", "symbol_range_dfa", "pattern_matcher", "matches"]),
    p!("C03", crate::p_match::c03, 400000,
        "one run = several matches over one matcher fed symbol by symbol by the scheduler; non-trivial = a match was forked or dropped part-way while others were live",
        &["pattern_matcher", "symbol_range_dfa"]),
    p!("C04", crate::p_tape::c04, 1200000, "one run = a random operation history on one tape; non-trivial = rewinds and cuts happened with the buffer non-empty", &["tape"]),
    p!("C05", crate::p_tape::c05, 1000000, "as C04 with rewinds biased to the edge of the allowance; non-trivial = at least one refused and one accepted rewind", &["tape"]),
    p!("C06", crate::p_tape::c06, 600000, "one run = one consumer on an instrumented source; non-trivial = the consumer took at least one symbol and stopped before the end or saw the end", &["tape", "split_reader", "symbol_reader", "matches", "tokenizer", "pattern_matcher"]),
    p!("C07", crate::p_split::c07, 1400000, "one run = a random schedule of reads on nested split halves; non-trivial = both halves read and one lagged behind the other", &["split_reader"]),
    p!("C08", crate::p_split::c08, 1400000, "as C07 with drops at random moments; non-trivial = a half was dropped while the halves were apart", &["split_reader"]),
    p!("C09", crate::p_tape::c09, 800000, "one run = a long stream through a split, tape or tokenizer; non-trivial = the stream was at least 10 times the longest stretch held", &["tape", "split_reader", "tokenizer"]),
    p!("C10", crate::p_adapt::c10, 1400000, "one run = a byte stream with random fragmentation and errors; non-trivial = a fault fired", &["symbol_reader (ByteReader)"]),
    p!("C11", crate::p_tok::c11, 400000, "one run = a random mix of tokenizer operations; non-trivial = tokens and skips both happened", &["tokenizer", "tape", "matches", "pattern_matcher", "symbol_range_dfa"]),
    p!("C12", crate::p_tok::c12, 260000, "one run = failed attempts and iterations with empty-matching patterns; non-trivial = an attempt failed after look-ahead or an iteration skipped a symbol", &["tokenizer", "tape", "matches"]),
    p!("C13", crate::p_tok::c13, 240000, "one run = a tokenizing session with random crashes; non-trivial = at least one crash between tokens", &["tokenizer", "tape", "matches", "symbol_range_dfa (serde)"]),
    p!("C14", crate::p_ser::c14, 160000, "one run = one matcher stored, damaged and reloaded; non-trivial = at least one damaged form was offered for loading", &["symbol_range_dfa (serde)", "prepare", "dfa_compiler"]),
    p!("C15", crate::p_tag::c15, 800000, "one run = a random history of taggings; non-trivial = nesting depth at least 2 or a bulk tagging", &["tagged_stream"]),
    p!("C16", crate::p_tag::c16, 600000, "one run = a history of valid, invalid and interrupted taggings; non-trivial = at least one request was refused or interrupted", &["tagged_stream", "tokenizer"]),
    p!("C17", crate::p_tag::c17, 200000, "one run = a stream tokenized level by level; non-trivial = at least one token was wrapped", &["tagged_stream", "tokenizer", "tape", "matches"]),
    p!("C18", crate::p_pipe::c18, 30000, "one run = several cooperative tasks under a random schedule; non-trivial = at least two tasks interleaved", &["all modules"]),
    p!("C19", crate::p_match::c19, 400000, "one run = one random automaton built in several orders; non-trivial = at least one join and one output", &["ndfa", "overlapping_symbols", "dfa_compiler", "symbol_range_dfa", "pattern_matcher"]),
    p!("C20", crate::p_match::c20, 240000, "one run = one pattern set compiled into a checking builder; non-trivial = the automaton has at least 3 states", &["dfa_compiler", "dfa_builder", "symbol_range_dfa", "ndfa", "overlapping_symbols"]),
    p!("C21", crate::p_match::c21, 160000, "one run = one input compiled under several hash seeds; non-trivial = the automaton has at least 3 states", &["ndfa", "overlapping_symbols", "dfa_compiler", "symbol_range_dfa", "tokenizer::TokenMatcher"]),
    p!("C22", crate::p_adapt::c22, 1200000, "one run = a random stack of adaptors read at several levels; non-trivial = depth at least 2", &["symbol_reader", "split_reader", "tape", "matches"]),
    p!("C23", crate::p_build::c23, 1600000, "one run = a history of one symbol map; non-trivial = at least three ranges and a lookup", &["overlapping_symbols", "symbol_range", "countable"]),
    p!("C24", crate::p_build::c24, 300000, "one run = a history of a few machines and copies of them, questioned as they are built; non-trivial = states were joined", &["ndfa", "overlapping_symbols", "regular_pattern"]),
    p!("C25", crate::p_fail::c25, 800000, "one run = a tree of readers over a source that fails now and then; non-trivial = a failure reached a caller", &["tape", "split_reader", "symbol_reader", "tagged_stream (from_reader)"]),
    p!("C26", crate::p_stack::c26, 300000, "one run = a growing tree of readers over one source, read by a random schedule; non-trivial = at least two layers", &["symbol_reader", "tape", "split_reader", "tokenizer", "tagged_stream", "matches", "pattern_matcher", "symbol_range_dfa"]),
    p!("C27", crate::p_cost::c27, 300000, "one run = one long history of a tape, split, match, tokenizer, tagged stream or collected reader, its work counted call by call; non-trivial = more than 50 symbols were held, apart, matched or handled", &["tape", "split_reader", "symbol_reader", "tokenizer", "tagged_stream", "matches", "pattern_matcher", "symbol_range_dfa"]),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
