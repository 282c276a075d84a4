// core's TryFrom between integers (no specification in vstd)
pub trait VfTryInto<T>: Sized {
    spec fn vf_into(self) -> Option<T>;
    fn vf_try_into(self) -> (r: core::result::Result<T, ()>) ensures (match r { Ok(x) => Some(x), Err(_) => None }) == self.vf_into();
}
impl VfTryInto<i128> for u128 {
    open spec fn vf_into(self) -> Option<i128> { if self <= i128::MAX { Some(self as i128) } else { None } }
    #[verifier::external_body]
    fn vf_try_into(self) -> (r: core::result::Result<i128, ()>) { self.try_into().map_err(|_| ()) }
}
impl VfTryInto<u128> for i128 {
    open spec fn vf_into(self) -> Option<u128> { if self >= 0 { Some(self as u128) } else { None } }
    #[verifier::external_body]
    fn vf_try_into(self) -> (r: core::result::Result<u128, ()>) { self.try_into().map_err(|_| ()) }
}
impl VfTryInto<i64> for u64 {
    open spec fn vf_into(self) -> Option<i64> { if self <= i64::MAX { Some(self as i64) } else { None } }
    #[verifier::external_body]
    fn vf_try_into(self) -> (r: core::result::Result<i64, ()>) { self.try_into().map_err(|_| ()) }
}
impl VfTryInto<u64> for i64 {
    open spec fn vf_into(self) -> Option<u64> { if self >= 0 { Some(self as u64) } else { None } }
    #[verifier::external_body]
    fn vf_try_into(self) -> (r: core::result::Result<u64, ()>) { self.try_into().map_err(|_| ()) }
}
impl VfTryInto<usize> for u64 {
    open spec fn vf_into(self) -> Option<usize> { if true { Some(self as usize) } else { None } }
    #[verifier::external_body]
    fn vf_try_into(self) -> (r: core::result::Result<usize, ()>) { self.try_into().map_err(|_| ()) }
}
impl VfTryInto<u64> for usize {
    open spec fn vf_into(self) -> Option<u64> { if true { Some(self as u64) } else { None } }
    #[verifier::external_body]
    fn vf_try_into(self) -> (r: core::result::Result<u64, ()>) { self.try_into().map_err(|_| ()) }
}
impl VfTryInto<u64> for u128 {
    open spec fn vf_into(self) -> Option<u64> { if self <= u64::MAX { Some(self as u64) } else { None } }
    #[verifier::external_body]
    fn vf_try_into(self) -> (r: core::result::Result<u64, ()>) { self.try_into().map_err(|_| ()) }
}
