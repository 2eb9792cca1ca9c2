//! Stand-in with the part of the interface that the parsing of extension streams uses
#![allow(warnings)]
use std::marker::PhantomData;
#[derive(Debug)] pub enum Error { StreamNotFound, StreamReadFailure, FileNotFound }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
/// a minidump is its one raw stream, if any
pub struct Minidump<'a, T: std::ops::Deref<Target = [u8]> + 'a> { data: T, ty: Option<u32>, broken: bool, p: PhantomData<&'a ()> }
impl<'a, T: std::ops::Deref<Target = [u8]> + 'a> Minidump<'a, T> {
    pub fn vp(data: T, ty: Option<u32>, broken: bool) -> Self { Minidump { data, ty, broken, p: PhantomData } }
    pub fn get_raw_stream(&'a self, ty: u32) -> Result<&'a [u8], Error> { if self.broken { return Err(Error::StreamReadFailure); } if self.ty == Some(ty) { Ok(&self.data) } else { Err(Error::StreamNotFound) } }
}
