//! Stand-in for the one type that the interface mentions
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum FrameTrust { None, Scan, CfiScan, FramePointer, CallFrameInfo, PreWalked, Context }
