"""C15: the parallel decompressor returns the points of the chunks in order, however they are requested."""
import gen, scen

LEVEL = "other"


def run(ctx):
    specs = gen.readers("par", ctx.deep)
    ctx.floor("sequences of calls", len(specs), 600)
    scen.run(ctx, specs)
    ctx.explanation = ("ParLasZipDecompressor, par_decompress_buffer, par_decompress and par_decompress_selective are evaluated on files with one to 120 chunks for all ways to split the request: each output byte must be the byte of the expected point of the "
                       "expected chunk, each chunk decoded by its own record decoder from exactly the chunk's bytes with the requested selection. Requests past the last point must be errors; a missing chunk table must be an error; the source must not be "
                       "used inside the parallel part.")
    ctx.assumptions = ["rayon's indexed iterators keep the order of their items and run every item once", "a record decoder returns the points of the chunk it starts on (C10 to C13) and reports the end of the data", "positions and sizes are below 2^40"]
