//! Must compile: every type below can be moved to and shared with other threads whenever its stream can.
#![allow(dead_code)]
use laz::las::selective::DecompressionSelection;
use std::io::{Read, Seek, Write};

fn thread<T: Send + Sync>() {}

fn stream<S: Read + Write + Seek + Send + Sync + 'static>() {
    thread::<laz::LasZipCompressor<'static, S>>();
    thread::<laz::LasZipDecompressor<'static, S>>();
    thread::<laz::LasZipAppender<'static, S>>();
    thread::<laz::encoders::ArithmeticEncoder<S>>();
    thread::<laz::decoders::ArithmeticDecoder<S>>();
    thread::<laz::record::SequentialPointRecordCompressor<'static, S>>();
    thread::<laz::record::SequentialPointRecordDecompressor<'static, S>>();
    thread::<laz::record::LayeredPointRecordCompressor<'static, S>>();
    thread::<laz::record::LayeredPointRecordDecompressor<'static, S>>();
    #[cfg(feature = "parallel")]
    {
        thread::<laz::ParLasZipCompressor<S>>();
        thread::<laz::ParLasZipDecompressor<S>>();
        thread::<laz::ParLasZipAppender<S>>();
    }
}

/// streams that live for a shorter time than the program
fn borrowed<'a, S: Read + Write + Seek + Send + Sync + 'a>() {
    thread::<laz::LasZipCompressor<'a, S>>();
    thread::<laz::LasZipDecompressor<'a, S>>();
    thread::<laz::LasZipAppender<'a, S>>();
}

/// a stream that can be moved but not shared: the coders can be moved
fn movable<S: Read + Write + Seek + Send + 'static>() {
    fn m<T: Send>() {}
    m::<laz::encoders::ArithmeticEncoder<S>>();
    m::<laz::decoders::ArithmeticDecoder<S>>();
}

fn data() {
    thread::<laz::LazVlr>();
    thread::<laz::LazVlrBuilder>();
    thread::<laz::LazItem>();
    thread::<laz::LazItemType>();
    thread::<laz::LazItemRecordBuilder>();
    thread::<DecompressionSelection>();
    thread::<laz::laszip::ChunkTable>();
    thread::<laz::laszip::ChunkTableEntry>();
    thread::<laz::models::ArithmeticModel>();
    thread::<laz::models::ArithmeticBitModel>();
    thread::<laz::compressors::IntegerCompressor>();
    thread::<laz::decompressors::IntegerDecompressor>();
    thread::<laz::las::file::QuickHeader>();
    thread::<laz::las::file::Vlr>();
    thread::<laz::LasZipError>();
}
