mod ast;
mod diff;
mod gen;
mod grammars;
mod mk;
mod refsem;
mod special;
use diff::{case, scale_case, tall_case, Opts, Strict};
use vcommon::{Ctx, Property, Rng, Suite};

const O: Opts = Opts {
  focus: &[],
  depth: 4,
  strict: Strict::Outcome,
  runs: 3,
  offsets: false,
  root: &[],
};

const RULE: &str = "random parser descriptions (focus nodes of the property preferred, up to 60 nodes) built with the public combinators and run on inputs sampled from the description and then mutated; a case is non-trivial when it has more than one node or a non-empty input and the reference terminates; distinct by description and inputs";
const ASSUME: &[&str] = &[
  "user callbacks are pure",
  "chains whose operator and operand both consume nothing are outside the property (discarded)",
  "the reference semantics in harness/parser/src/refsem.rs states the documented meaning",
];

macro_rules! prop {
  ($id:expr, $root:expr, $focus:expr, {$($k:ident : $v:expr),*}, $req:expr) => { prop!($id, $root, $focus, {$($k : $v),*}, $req, RULE, []) };
  ($id:expr, $root:expr, $focus:expr, {$($k:ident : $v:expr),*}, $req:expr, $rule:expr, [$($extra:expr),*]) => {{
    fn run(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
      case(ctx, rng, &Opts { focus: $focus, root: $root, $($k: $v,)* ..O })
    }
    fn scale(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
      scale_case(ctx, rng, &Opts { focus: $focus, root: $root, $($k: $v,)* ..O })
    }
    fn tall(ctx: &mut Ctx, rng: &mut Rng, _i: u64) {
      tall_case(ctx, rng, &Opts { focus: $focus, root: $root, $($k: $v,)* ..O })
    }
    Property {
      id: $id,
      rule: $rule,
      assumptions: ASSUME,
      required: { static R: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new(); R.get_or_init(|| $req.iter().copied().chain(["long_input", "very_long_input", "very_tall_descriptions"]).collect()) },
      suites: vec![
        $($extra,)*
        Suite {
          name: "random",
          quick: 3_000_000,
          thorough: 24_000_000,
          run,
        },
        Suite {
          name: "scale",
          quick: 30_000,
          thorough: 600_000,
          run: scale,
        },
        suite("tall", 30_000, 600_000, tall),
      ],
    }
  }};
}

fn suite(name: &'static str, quick: u64, thorough: u64, run: vcommon::CaseFn) -> Suite {
  Suite { name, quick, thorough, run }
}

fn main() {
  let n_chunks = 1 + (0x110000 / special::CHAR_CHUNK) as u64;
  let props = vec![
    prop!(
      "P01",
      &["and", "flat_map", "skip_l", "skip_r", "surround", "map", "collect", "discard"],
      &["and", "flat_map", "skip_l", "skip_r", "surround", "map", "collect", "discard", "elm", "tag", "take"],
      {},
      &["and_then", "flat_map", "skip_left", "skip_right", "surround", "collect", "success_consuming", "failure"]
    ),
    prop!(
      "P02",
      &["or", "or", "or", "attempt", "opt"],
      &["or", "attempt", "opt", "and", "flat_map", "tag", "seq", "skip_l", "succ", "fail"],
      { depth: 5 },
      &["or", "attempt", "opt", "flat_map", "tag", "seq", "success_consuming", "failure", "failure_committed"]
    ),
    prop!(
      "P03",
      &["peek", "not", "exists"],
      &["peek", "not", "exists", "and", "tag", "flat_map", "or"],
      {},
      &["peek", "not", "exists", "success", "failure", "success_consuming"]
    ),
    prop!(
      "P04",
      &["repeat"],
      &["repeat", "elm", "tag", "and", "opt"],
      {},
      &["repeat", "success_consuming", "failure"]
    ),
    prop!(
      "P05",
      &["rep_sep"],
      &["rep_sep", "elm", "tag", "and", "opt", "repeat"],
      {},
      &["repeat_sep", "success_consuming", "failure"]
    ),
    prop!(
      "P06",
      &["chain_l1", "chain_r1", "chain_l0", "chain_r0", "rest_l1", "rest_r1"],
      &["elm", "elm", "tag", "of", "and", "or", "chain_l1", "chain_r1"],
      {},
      &["chain_left1", "chain_right1", "chain_left0", "chain_right0", "rest_left1", "rest_right1", "success_consuming", "failure_committed"]
    ),
    prop!(
      "P07",
      &["cls", "pred", "of", "none_of", "in", "from_until", "elm"],
      &["cls", "pred", "of", "none_of", "in", "from_until", "elm", "or", "and"],
      { depth: 2 },
      &["chars_exhausted", "bytes_exhausted", "range_checks", "set_checks", "elm_of", "none_of", "elm_in", "elm_from_until", "elm_pred"],
      "every byte and every Unicode scalar value against every element class and predicate (exhaustive), every pair of byte bounds, random sets, and random small compositions; non-trivial: at least one membership decided; distinct by chunk, bounds, or description and inputs",
      [suite("classes", n_chunks, n_chunks, special::classes), suite("ranges", 256, 2560, special::ranges), suite("sets", 100_000, 1_000_000, special::sets)]
    ),
    prop!(
      "P08",
      &["tag", "seq", "tag_nc", "regex", "regex"],
      &["tag", "seq", "tag_nc", "regex", "and", "or"],
      { depth: 3 },
      &["tag", "seq", "tag_no_case", "regex", "success_consuming", "failure_committed", "folding_checks"],
      "random compositions of literals and regexes, and (exhaustively) every Unicode scalar value against the tags made of its case relatives; distinct by description and inputs, or chunk",
      [suite("folding", n_chunks, n_chunks, special::folding)]
    ),
    prop!(
      "P09",
      &["take", "tw0", "tw1", "twnm", "tt0", "tt1", "skip"],
      &["take", "tw0", "tw1", "twnm", "tt0", "tt1", "skip", "and", "or", "collect"],
      { depth: 3, offsets: true },
      &["take", "take_while0", "take_while1", "take_while_n_m", "take_till0", "take_till1", "skip", "success_consuming", "failure"]
    ),
    prop!(
      "P10",
      &["cache", "cache", "lazy", "log", "name"],
      &["cache", "cache", "lazy", "log", "name", "and", "or", "repeat", "elm", "not"],
      { runs: 6, offsets: true },
      &["cache", "lazy", "log", "name", "success_consuming", "failure"]
    ),
    prop!(
      "P11",
      &["name", "and", "or", "flat_map", "repeat", "filter", "map_res", "not", "surround"],
      &["name", "tag", "seq", "elm", "regex", "take", "filter", "map_res", "not", "end", "repeat", "cls"],
      { strict: Strict::Errors, offsets: true },
      &["name", "failure", "failure_committed", "error_trees", "byte_excerpt_not_utf8"],
      RULE,
      [suite("trees", 300_000, 4_000_000, special::error_trees), suite("byte_trees", 200_000, 2_000_000, special::byte_errors)]
    ),
    prop!(
      "P12",
      &["filter", "map_res"],
      &["filter", "map_res", "map", "and", "or", "take", "elm"],
      {},
      &["with_filter", "map_res", "success_consuming", "failure"]
    ),
    prop!(
      "P13",
      &[],
      &[],
      { depth: 6, offsets: true },
      &["success_consuming", "failure", "node_runs_monitored"]
    ),
    prop!(
      "P14",
      &["last_off", "next_off", "and", "flat_map", "repeat"],
      &["last_off", "next_off", "and", "repeat", "tag", "take", "chain_l1", "cache"],
      { offsets: true },
      &["last_offset", "next_offset", "success_consuming"]
    ),
    Property {
      id: "P15",
      rule: "random JSON documents (char and byte grammars, cached and uncached, deep and long) and arithmetic expressions with left and right associative levels, mutated in half of the cases; distinct by text; non-trivial when longer than one character",
      assumptions: &["the separated repetition takes a trailing separator, so the JSON grammar accepts a trailing comma", "nesting up to 1500"],
      required: &["json_accepted", "json_rejected", "json_deep", "json_long", "calc_accepted", "calc_rejected", "calc_long"],
      suites: vec![suite("json", 60_000, 1_500_000, grammars::json), suite("calculator", 60_000, 1_500_000, grammars::calculator)],
    },
    Property {
      id: "P16",
      rule: "random results, states and statuses against their definitions, and random descriptions run through every public entry point; distinct by drawn values; non-trivial when the description has more than one node or the input is non-empty",
      assumptions: &["user callbacks are pure"],
      required: &["result_algebra", "entry_success", "entry_failure", "states"],
      suites: vec![
        suite("results", 300_000, 5_000_000, special::results),
        suite("states", 100_000, 1_000_000, special::states),
        suite("entry", 300_000, 6_000_000, special::entry_points),
      ],
    },
  ];
  vcommon::main(props)
}
