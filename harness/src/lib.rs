//! Entry points through which the checks drive the real code of corries.
//!
//! Every entry point has the signature `(inp, out, par) -> status`: `inp` are
//! the f64 inputs of the scenario (symbolic in the executor), `out` receives
//! what the code computed, `par` are concrete integer parameters.  The harness
//! only constructs objects, calls public functions and copies values.
#![allow(static_mut_refs, clippy::missing_safety_doc)]

mod util;

mod cfg;
mod flux;
mod phys;
mod rk;
mod step;
mod stub;
mod whole;

mod out;
mod run;
