use crate::mon::Ctx;
use crate::rng::Rng;

pub mod read;
pub mod write;
pub mod iter;
#[cfg(feature = "par")]
pub mod par;
pub mod bytes;
pub mod schema;
pub mod color;
pub mod build;
#[cfg(feature = "ser")]
pub mod ser;
pub mod once;
pub mod scalar;
pub mod access;
pub mod errors;
pub mod history;
pub mod giant;
pub mod wide;

pub fn find(p: &str) -> Option<fn(&mut Ctx, &mut Rng)> {
    Some(match p {
        #[cfg(any(not(feature = "only"), feature = "c01"))]
        "C01" => read::c01,
        #[cfg(any(not(feature = "only"), feature = "c02"))]
        "C02" => read::c02,
        #[cfg(any(not(feature = "only"), feature = "c03"))]
        "C03" => write::c03,
        #[cfg(any(not(feature = "only"), feature = "c04"))]
        "C04" => write::c04,
        #[cfg(any(not(feature = "only"), feature = "c05"))]
        "C05" => read::c05,
        #[cfg(any(not(feature = "only"), feature = "c06"))]
        "C06" => read::c06,
        #[cfg(any(not(feature = "only"), feature = "c07"))]
        "C07" => read::c07,
        #[cfg(any(not(feature = "only"), feature = "c08"))]
        "C08" => iter::c08,
        #[cfg(any(not(feature = "only"), feature = "c09"))]
        "C09" => iter::c09,
        #[cfg(feature = "par")]
        #[cfg(any(not(feature = "only"), feature = "c10"))]
        "C10" => par::c10,
        #[cfg(any(not(feature = "only"), feature = "c11"))]
        "C11" => bytes::c11,
        #[cfg(any(not(feature = "only"), feature = "c12"))]
        "C12" => bytes::c12,
        #[cfg(any(not(feature = "only"), feature = "c14"))]
        "C14" => schema::c14,
        #[cfg(any(not(feature = "only"), feature = "c16"))]
        "C16" => color::c16,
        #[cfg(any(not(feature = "only"), feature = "c17"))]
        "C17" => build::c17,
        #[cfg(feature = "ser")]
        #[cfg(any(not(feature = "only"), feature = "c18"))]
        "C18" => ser::c18,
        #[cfg(any(not(feature = "only"), feature = "c19"))]
        "C19" => once::c19,
        #[cfg(any(not(feature = "only"), feature = "c20"))]
        "C20" => scalar::c20,
        #[cfg(any(not(feature = "only"), feature = "c21"))]
        "C21" => build::c21,
        #[cfg(any(not(feature = "only"), feature = "c22"))]
        "C22" => access::c22,
        #[cfg(any(not(feature = "only"), feature = "c24"))]
        "C24" => history::c24,
        #[cfg(any(not(feature = "only"), feature = "c25"))]
        "C25" => errors::c25,
        _ => return None,
    })
}
