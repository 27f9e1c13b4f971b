// One module per property; each is compiled only for its own check (cargo feature of the same
// name), so that a change which stops one harness from compiling leaves the others usable.
#[macro_use]
pub mod nd;
macro_rules! props {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn table() -> Vec<(String, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(String, fn())> = vec![];
            $( #[cfg(feature = $f)] for (n, f) in $m::TABLE { v.push((format!("{}::{}", stringify!($m), n), *f)); } )*
            v
        }
    };
}
#[cfg(any(feature = "t01", feature = "t02", feature = "t03", feature = "t04", feature = "t05", feature = "t06", feature = "t07", feature = "t08", feature = "t09", feature = "t10", feature = "t11", feature = "t12"))]
pub mod tcommon;
props! {
    "c01" c01,
    "c02" c02,
    "c03" c03,
    "c04" c04,
    "k01" k01,
    "k02" k02,
    "l01" l01,
    "n01" n01,
    "s01" s01,
    "s02" s02,
    "t01" t01,
    "t02" t02,
    "t03" t03,
    "t04" t04,
    "t05" t05,
    "t07" t07,
    "u01" u01,
    "u02" u02,
    "y01" y01,
    "y02" y02,
    "y03" y03,
    "y04" y04,
}
