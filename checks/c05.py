"""C05: the sequential decompressor returns the points of the chunks in order, however they are requested."""
import gen, scen, step

LEVEL = "other"


def run(ctx):
    specs = gen.readers("seq", ctx.deep)
    ctx.floor("sequences of calls", len(specs), 800)
    scen.run(ctx, specs)
    for lay in (False, True):
        for var in (False, True):
            step.reader(ctx, lay, var)
    ctx.explanation = ("LasZipDecompressor and decompress_buffer are evaluated on files with one to 120 chunks (fixed and variable size, last chunk full or not, point-wise without chunks, chunk table present, at the end of the file, or missing) for all ways "
                       "to split the request; each output byte must be the byte of the expected point of the expected chunk, decoded by a record decoder set up once for that chunk with the requested selection. The step over a chunk boundary is also "
                       "decided for an arbitrary chunk size.")
    ctx.assumptions = ["a record decoder returns the points of the chunk it starts on and stops where the chunk ends (C10 to C13)", "positions and sizes are below 2^40"]
