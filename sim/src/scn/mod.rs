//! One scenario per property.
mod cli;
pub mod common;
mod forge;
pub mod forger;
mod hist;
mod install;
mod jobs;
mod keep;
mod limits;
mod lsp;
mod output;
mod serve;
mod simplify;
mod strict;
mod world;

use crate::harness::Scenario;

pub fn all() -> Vec<&'static dyn Scenario> {
    vec![&hist::CrashSafe, &hist::Survive, &hist::Incremental, &jobs::Jobs, &hist::RoundTrip, &hist::Race, &hist::UserFiles, &hist::ReadFaults, &hist::Crowd, &hist::ReadOnly, &lsp::Lsp("P09"), &lsp::Lsp("P10"), &lsp::Lsp("P11"), &lsp::Lsp("P28"), &lsp::Beside, &limits::Time, &limits::Refused, &limits::Cancel, &forge::Forge, &install::Install, &output::Output, &simplify::Simplify, &keep::Keep, &strict::Strict, &cli::Lines, &serve::Serve]
}

pub fn dev(args: &[String]) -> i32 {
    common::dev(args)
}
