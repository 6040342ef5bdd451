pub(crate) mod appender;
mod compression;
mod decompression;

pub use appender::LasZipAppender;
pub use compression::{compress_buffer, LasZipCompressor};
pub use decompression::{decompress_buffer, LasZipDecompressor};
