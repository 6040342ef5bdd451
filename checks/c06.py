"""C06: the parallel compressor leaves the same image as the sequential one."""
import gen, scen

LEVEL = "other"


def run(ctx):
    specs = gen.writers("par", ctx.deep)
    ctx.floor("sequences of calls", len(specs), 1000)
    scen.run(ctx, specs)
    ctx.explanation = ("ParLasZipCompressor (compress_many split in any way, compress_one, compress_chunks, reserve, done) and par_compress_buffer are evaluated over sequences of calls on the device of C04 and compared with the same documented image. "
                       "Work handed to rayon is evaluated item by item; any use of the destination or of a shared stream inside the parallel part is reported, so the image cannot depend on the schedule.")
    ctx.assumptions = ["rayon's indexed iterators keep the order of their items and run every item once", "record coders code a chunk as a function of its items and points only (C10 to C13)", "positions and sizes are below 2^40"]
