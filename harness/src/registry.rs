use crate::ctx::Ctx;
use crate::rng::Rng;

pub type CaseFn = fn(&mut Rng, &mut Ctx) -> Result<(), String>;

pub fn find(prop: &str) -> Option<CaseFn> {
    Some(match prop {
        "C01" => crate::p_build::c01,
        "C02" => crate::p_build::c02,
        "C03" => crate::p_build::c03,
        "C05" => crate::p_norm::c05,
        "C06" => crate::p_norm::c06,
        "C07" => crate::p_norm::c07,
        "C08" => crate::p_norm::c08,
        "C09" => crate::p_simplify::c09,
        "C10" => crate::p_simplify::c10,
        "C11" => crate::p_clip::c11,
        "C12" => crate::p_clip::c12,
        "C13" => crate::p_clip::c13,
        "C14" => crate::p_clip::c14,
        "C15" => crate::p_geo::c15,
        "C16" => crate::p_read::c16,
        "C17" => crate::p_read::c17,
        "C18" => crate::p_read::c18,
        "C19" => crate::p_read::c19,
        "C20" => crate::p_read::c20,
        "C21" => crate::p_read::c21,
        "C04" => crate::p_pipe::c04,
        "C22" => crate::p_pipe::c22,
        "C24" => crate::p_cli::c24,
        "C26" => crate::p_print::c26,
        "C28" => crate::p_threads::c28,
        "C29" => crate::p_iter::c29,
        "C25" => crate::p_pipe::c25,
        _ => return None,
    })
}

/// One case in so many is a large one. Odd, so that every worker meets them;
/// sized so that a quick run sees a few dozen.
pub fn large_every(prop: &str) -> u64 {
    match prop {
        "C10" => 10_001,
        "C11" | "C15" => 15_001,
        "C16" | "C17" | "C18" | "C21" => 5_001,
        "C28" => 0, // never: several threads, and slow tools
        "C29" => 0,
        "C19" => 2_001,
        "C14" => 2_001,
        _ => 3_001,
    }
}
