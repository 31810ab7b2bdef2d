// Which module decides which property; check.sh reads these lines to build a single module when
// another one does not compile against the tree under test.
// module cde: C01 C02 C03 C04 C05 C06
// module prims: C13 C14 C15 C16
// module layout: C07 C08 C09 C10 C21
// module io: C11 C12 C20
// module opt: C17 C18 C19
// module dbg: C22
use crate::engine::Prop;

#[cfg(feature = "m_cde")]
pub mod cde;
#[cfg(feature = "m_dbg")]
pub mod dbg;
#[cfg(feature = "m_io")]
pub mod io;
#[cfg(feature = "m_layout")]
pub mod layout;
#[cfg(feature = "m_opt")]
pub mod opt;
#[cfg(feature = "m_prims")]
pub mod prims;

pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = vec![];
    #[cfg(feature = "m_cde")]
    v.extend(cde::props());
    #[cfg(feature = "m_prims")]
    v.extend(prims::props());
    #[cfg(feature = "m_layout")]
    v.extend(layout::props());
    #[cfg(feature = "m_io")]
    v.extend(io::props());
    #[cfg(feature = "m_opt")]
    v.extend(opt::props());
    #[cfg(feature = "m_dbg")]
    v.extend(dbg::props());
    v
}
