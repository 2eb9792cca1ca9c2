// ---- anyhow: an opaque error ---------------------------------------------------------------
#[derive(Debug)]
pub struct VpErr { e: u8 }
#[verifier::external_body]
pub fn vp_err() -> VpErr { unimplemented!() }
pub type Result<T, E = VpErr> = core::result::Result<T, E>;
