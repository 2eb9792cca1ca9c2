//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
use std::net::Ipv4Addr;
#[derive(Clone, Copy, Debug)] pub struct Ipv4Network { a: u32, p: u32 }
#[derive(Debug)] pub struct IpNetworkError;
impl std::fmt::Display for IpNetworkError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("invalid network") } }
impl std::error::Error for IpNetworkError {}
impl std::str::FromStr for Ipv4Network { type Err = IpNetworkError;
    fn from_str(s: &str) -> Result<Self, IpNetworkError> { let (a, p) = s.split_once('/').unwrap_or((s, "32")); let a: Ipv4Addr = a.parse().map_err(|_| IpNetworkError)?; let p: u32 = p.parse().map_err(|_| IpNetworkError)?; if p > 32 { return Err(IpNetworkError); } Ok(Self { a: u32::from(a), p }) } }
impl Ipv4Network { fn mask(&self) -> u32 { if self.p == 0 { 0 } else { u32::MAX << (32 - self.p) } } pub fn contains(self, ip: Ipv4Addr) -> bool { u32::from(ip) & self.mask() == self.a & self.mask() } pub fn prefix(&self) -> u8 { self.p as u8 } pub fn ip(&self) -> Ipv4Addr { Ipv4Addr::from(self.a) } }
