use crate::ctx::Ctx;

macro_rules! props {
    ($($m:ident $id:literal)*) => {
        $(mod $m;)*

        /// Run a property's workload. Returns the rule by which its executions count as distinct.
        pub fn run(prop: &str, ctx: &mut Ctx) -> Option<&'static str> {
            Some(match prop {
                $($id => $m::run(ctx),)*
                _ => return None,
            })
        }
    };
}

props! {
    c01 "C01"
    c02 "C02"
    c03 "C03"
    c04 "C04"
    c05 "C05"
    c06 "C06"
    c07 "C07"
    c08 "C08"
    c09 "C09"
    c10 "C10"
    c11 "C11"
    c12 "C12"
    c13 "C13"
    c14 "C14"
    c15 "C15"
    c16 "C16"
    c17 "C17"
    c18 "C18"
    c20 "C20"
    c22 "C22"
    c23 "C23"
    c24 "C24"
}
