//! The command line program, run on a template.
#[macro_use]
extern crate fakestd as std;
mod cli;
use harness::sym::*;
use ::std::error::Error;
use ::std::fmt::Write as _;
use ::std::io::Write as _;
use ::std::io;
use world::World;

pub const A_STATUS_OK: u64 = 20; // a module, but the exit status is not zero
pub const A_STATUS_ERR: u64 = 21; // an error, but the exit status is zero
pub const A_CHAIN: u64 = 22; // the error or one of its causes is not printed
pub const A_VERBOSE: u64 = 23; // --verbose does not print the module
pub const A_VERBOSE_ERR: u64 = 25; // --verbose does not print the error's debug representation

/// where `t` ends in `s`, searched from `from` on
fn after(s: &[u8], t: &[u8], from: usize) -> Option<usize> {
    let mut i = from;
    while i + t.len() <= s.len() {
        // no branch on a single byte: some of them may be symbolic
        let mut d = 0;
        for (x, y) in s.get(i..i + t.len()).unwrap_or(&[]).iter().zip(t) {
            d |= x ^ y;
        }
        if d == 0 {
            return Some(i + t.len());
        }
        i += 1;
    }
    None
}
fn say(what: &str, b: &[u8]) {
    if is_native() && ::std::env::var_os("REPLAY_VERBOSE").is_some() {
        let mut h = String::new();
        for x in b {
            let _ = write!(h, "{x:02x}");
        }
        let _ = writeln!(harness::real_stdout(), "# {what} {h}");
    }
}
/// Is the debug representation of `e` in `s`?
fn debug_in<E: ::std::fmt::Debug>(e: &E, s: &[u8]) -> bool {
    after(s, &Text::of(format_args!("{e:#?}")), 0).is_some() || after(s, &Text::of(format_args!("{e:?}")), 0).is_some()
}
fn chain(e: &dyn Error) -> Vec<Vec<u8>> {
    let mut o = Vec::new();
    let mut cur = Some(e);
    while let Some(e) = cur {
        o.push(Text::of(format_args!("{e}")));
        cur = e.source();
        if o.len() > 32 {
            break;
        }
    }
    o
}
/// The program has ended with exit status `code`.
fn finish(code: i32) {
    let Some(w) = world::take() else { return };
    let code = code & 0xFF;
    trace(code as u64);
    for b in w.out.0.iter().chain(&w.err.0) {
        trace(*b as u64);
    }
    say("out", &w.out.0);
    say("err", &w.err.0);
    say("exit", &[code as u8]);
    let failed: Vec<Vec<u8>>;
    match world::Input::open(&w) {
        Err(e) => {
            failed = chain(&e);
            check(!w.verbose || debug_in(&e, &w.err.0), A_VERBOSE_ERR);
        }
        Ok(r) => match wadec::decode_module(r) {
            Err(e) => {
                failed = chain(&e);
                check(!w.verbose || debug_in(&e, &w.err.0), A_VERBOSE_ERR);
            }
            Ok(m) => {
                cover(harness::C_OK);
                say("expect-ok", &[w.verbose as u8]);
                check(code == 0, A_STATUS_OK);
                if w.verbose {
                    check(debug_in(&m, &w.out.0), A_VERBOSE);
                }
                return;
            }
        },
    }
    cover(harness::C_ERR);
    for t in &failed {
        say("expect-cause", t);
    }
    check(code != 0, A_STATUS_ERR);
    let mut at = 0;
    for t in &failed {
        match after(&w.err.0, t, at) {
            Some(k) => at = k,
            None => check(false, A_CHAIN),
        }
    }
}

/// args: verbose (2: either), failure (0 none, 1 opening, 2 reading), kind of the failure + 2^8 lowest offset + 2^24 highest offset, template
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_cli() {
    let mut input = Vec::new();
    harness::build(3, &mut input);
    let verbose = match arg(0) {
        0 => false,
        1 => true,
        _ => byte() & 1 != 0,
    };
    let fail = arg(1);
    let mut at = 0;
    if fail == world::READ {
        let c = byte() as usize;
        at = ((arg(2) >> 8) & 0xFFFF) as usize;
        let hi = ((arg(2) >> 24) & 0xFFFF) as usize;
        while at < input.len() && at < hi && c != at & 0xFF {
            at += 1;
        }
    }
    let kind = harness::io_kind((arg(2) & 0xFF) as u8);
    world::set(World { input, fail, at, kind, verbose, out: Text::default(), err: Text::default(), finish });
    let code = cli::verif_main();
    finish(code);
}
pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[("h_cli", h_cli)];
