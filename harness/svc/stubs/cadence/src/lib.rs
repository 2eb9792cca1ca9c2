//! Stand-in with the part of the interface the service uses; the real crate is not available offline.
#![allow(warnings)]
use std::io;
pub trait MetricSink { fn emit(&self, m: &str) -> io::Result<usize>; fn flush(&self) -> io::Result<()> { Ok(()) } }
#[derive(Debug)] pub struct BufferedUdpMetricSink;
impl BufferedUdpMetricSink { pub fn from<A>(_: A, _: std::net::UdpSocket) -> io::Result<Self> { Ok(Self) } }
impl MetricSink for BufferedUdpMetricSink { fn emit(&self, m: &str) -> io::Result<usize> { Ok(m.len()) } }
#[derive(Debug)] pub struct QueuingMetricSink;
impl QueuingMetricSink { pub fn from<T>(_: T) -> Self { Self } }
impl MetricSink for QueuingMetricSink { fn emit(&self, m: &str) -> io::Result<usize> { Ok(m.len()) } }
#[derive(Debug)] pub struct StatsdClient;
pub struct Builder; impl Builder { pub fn with_tag<K, V>(self, _: K, _: V) -> Self { self } pub fn build(self) -> StatsdClient { StatsdClient } pub fn with_error_handler<F>(self, _: F) -> Self { self } }
impl StatsdClient { pub fn from_sink<T>(_: &str, _: T) -> Self { Self } pub fn builder<T>(_: &str, _: T) -> Builder { Builder } }
