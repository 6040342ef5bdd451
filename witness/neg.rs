//! Must not compile: each line marked NEG must be rejected (E0277).
#![allow(dead_code)]
use std::cell::Cell;
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::MutexGuard;

fn send<T: Send>() {}
fn sync<T: Sync>() {}

/// cannot be moved to another thread, can be shared
struct Pinned(Option<MutexGuard<'static, u8>>);
/// can be moved to another thread, cannot be shared
struct Unshared(Cell<u8>);

macro_rules! io {
    ($t:ty) => {
        impl Read for $t {
            fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
                Ok(0)
            }
        }
        impl Write for $t {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                Ok(b.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        impl Seek for $t {
            fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
                Ok(0)
            }
        }
    };
}
io!(Pinned);
io!(Unshared);

fn encoder_send() {
    send::<laz::encoders::ArithmeticEncoder<Pinned>>(); // NEG encoder of a sink that must stay on its thread: moved
}
fn encoder_sync() {
    sync::<laz::encoders::ArithmeticEncoder<Unshared>>(); // NEG encoder of a sink that must not be shared: shared
}
fn decoder_send() {
    send::<laz::decoders::ArithmeticDecoder<Pinned>>(); // NEG decoder of a source that must stay on its thread: moved
}
fn decoder_sync() {
    sync::<laz::decoders::ArithmeticDecoder<Unshared>>(); // NEG decoder of a source that must not be shared: shared
}
#[cfg(feature = "parallel")]
fn par() {
    send::<laz::ParLasZipCompressor<Pinned>>(); // NEG parallel compressor of a sink that must stay on its thread: moved
    sync::<laz::ParLasZipCompressor<Unshared>>(); // NEG parallel compressor of a sink that must not be shared: shared
    send::<laz::ParLasZipDecompressor<Pinned>>(); // NEG parallel decompressor of a source that must stay on its thread: moved
    sync::<laz::ParLasZipDecompressor<Unshared>>(); // NEG parallel decompressor of a source that must not be shared: shared
    send::<laz::ParLasZipAppender<Pinned>>(); // NEG parallel appender of a file that must stay on its thread: moved
    sync::<laz::ParLasZipAppender<Unshared>>(); // NEG parallel appender of a file that must not be shared: shared
}
