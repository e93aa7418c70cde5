pub mod algebra;
pub mod driver;
pub mod history;
pub mod impls;
pub mod json;
pub mod model;
pub mod observe;
pub mod rng;
pub mod traverse;

pub use driver::{guarded, CaseResult, CheckDef, Ctx, Tier};
pub use model::{Dir, DynGraph, HId, HLabel, Model};
pub use rng::Rng;

/// Runs `$f::<Id, NL, EL, Ty, L>(ctx, $args...)` for one combination of types picked by `$sel`.
#[macro_export]
macro_rules! dispatch {
    ($sel:expr, $f:ident ( $($a:expr),* )) => {{
        use rust_graph::generic::{Directed, Undirected};
        match $sel % 10 {
            0 => $f::<u32, String, String, Directed, u32>($($a),*),
            1 => $f::<u32, String, String, Undirected, u32>($($a),*),
            2 => $f::<u8, u32, u32, Directed, u8>($($a),*),
            3 => $f::<u8, u32, u32, Undirected, u8>($($a),*),
            4 => $f::<u16, String, u32, Directed, u8>($($a),*),
            5 => $f::<u16, String, u32, Undirected, u8>($($a),*),
            6 => $f::<usize, u8, String, Directed, u16>($($a),*),
            7 => $f::<usize, u8, String, Undirected, u16>($($a),*),
            8 => $f::<u32, (), (), Directed, u32>($($a),*),
            _ => $f::<u32, (), (), Undirected, u32>($($a),*),
        }
    }};
}
