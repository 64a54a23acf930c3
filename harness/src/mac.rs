/// Declares harness entry points: C-callable, unmangled, and listed in `ALL`.
#[macro_export]
macro_rules! harnesses {
    ($( fn $name:ident() $body:block )*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() $body
        )*
        pub const ALL: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name as extern "C" fn()) ),* ];
    };
}
/// Situations the harness must reach on some path; the driver refuses a run that misses one.
#[macro_export]
macro_rules! want {
    ($($m:literal),* $(,)?) => { $( $crate::sym::cover(concat!("?", $m)); )* };
}
