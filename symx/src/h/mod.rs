//! Harnesses: one generic function per (part of a) property.
#[macro_use]
mod mac {
    macro_rules! harness {
        ($v:expr, $prop:expr, $name:expr, $tier:expr, $f:ident $([$($n:expr),*])?, $bounds:expr, $funcs:expr) => {
            $v.push($crate::explore::Harness {
                name: $name,
                prop: $prop,
                tier: $tier,
                sym: $f::<$crate::sym::Sym $(, $($n),*)?>,
                nat: $f::<f64 $(, $($n),*)?>,
                bounds: $bounds,
                funcs: $funcs,
            })
        };
    }
}
pub mod arcs;
#[cfg(feature = "data")]
pub mod data;
pub mod geo;
pub mod intersection;
pub mod kernel;
pub mod location;
pub mod rnd;
pub mod sweep;
#[cfg(feature = "wasm")]
pub mod wasm;
use crate::explore::Harness;

pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    location::register(&mut v);
    intersection::register(&mut v);
    kernel::register(&mut v);
    #[cfg(feature = "data")]
    data::register(&mut v);
    arcs::register(&mut v);
    sweep::register(&mut v);
    #[cfg(feature = "wasm")]
    wasm::register(&mut v);
    v
}
