use crate::engine::Ex;
use std::sync::Arc;

macro_rules! props {
    ($($m:ident $f:literal = $id:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] mod $m;)*
        pub fn run(prop: &str, ex: &Arc<Ex>) -> bool {
            match prop { $(#[cfg(feature = $f)] $id => { $m::run(ex); true })* _ => false }
        }
    };
}

props!(
    c01 "c01" = "C01",
    c02 "c02" = "C02",
    c03 "c03" = "C03",
    c04 "c04" = "C04",
    c05 "c05" = "C05",
    c06 "c06" = "C06",
    c07 "c07" = "C07",
    c08 "c08" = "C08",
    c09 "c09" = "C09",
    c10 "c10" = "C10",
    c11 "c11" = "C11",
    c12 "c12" = "C12",
    c13 "c13" = "C13",
    c14 "c14" = "C14",
    c15 "c15" = "C15",
    c16 "c16" = "C16",
    c17 "c17" = "C17",
    c18 "c18" = "C18",
    c19 "c19" = "C19",
    c20 "c20" = "C20",
    c21 "c21" = "C21",
    c22 "c22" = "C22",
    c23 "c23" = "C23",
);
