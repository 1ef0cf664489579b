pub mod c01;
pub mod c03;
pub mod c04;
pub mod c06;
pub mod c08;
pub mod c09;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod cli;

use crate::io::{kind_name, Source};
use crate::runner::{Prop, Stats};

pub fn all() -> Vec<&'static dyn Prop> {
    vec![
        &c01::C01, &c01::C02, &c03::C03, &c04::C04, &c04::C05, &c06::C06, &c06::C07, &c08::C08, &c09::C09, &cli::C10, &cli::C11, &cli::C12, &c13::C13, &c14::C14, &c15::C15, &c03::C16, &c20::C20, &c21::C21, &c22::C22, &c23::C23, &c24::C24, &c25::C25,
    ]
}

/// Transfers what the byte source saw into the statistics of the run. Call once per source.
pub fn open_stats(src: &Source, st: &mut Stats) {
    let s = &mut *src.0.borrow_mut();
    st.add("sim_ops", s.ops);
    st.add("fault:short_read", s.short);
    st.add("fault:interrupted_read", s.intr);
    st.nontrivial |= s.short + s.intr > 0;
    for k in s.fired.drain(..) {
        st.add(&format!("fault:{}", kind_name(k)), 1);
        st.nontrivial = true;
    }
    st.mix(s.digest);
}
