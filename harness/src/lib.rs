#![allow(clippy::all)]
pub mod vf;
#[macro_use]
mod mac {
    /// h!{ name { body } ... } defines harness entry points; one per module.
    #[macro_export]
    macro_rules! h {
        ($($name:ident { $($body:tt)* })*) => {
            $( #[no_mangle] pub extern "C-unwind" fn $name() { $($body)* } )*
            #[cfg(feature = "native")]
            pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($name), $name) ),* ];
        };
    }
    #[macro_export]
    macro_rules! modules {
        ($($m:ident)*) => {
            $( pub mod $m; )*
            #[cfg(feature = "native")]
            pub fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
                let mut v = Vec::new();
                $( v.extend_from_slice($m::TABLE); )*
                v
            }
        };
    }
}
modules! { addsub muls divs mods gcds bits shifts bitq cmps conv bytes signs serdes variants texts floats rands hist }
