"""C04: the sequential compressor lays the points out in chunks, in order, followed by the chunk table."""
import vg
from vg import mk, const, isc, cval
import gen, scen, step

LEVEL = "other"


def run(ctx):
    specs = gen.writers("seq", ctx.deep)
    ctx.floor("sequences of calls", len(specs), 1500)
    scen.run(ctx, specs)
    for lay in (False, True):
        step.writer(ctx, lay)
    ctx.explanation = ("LasZipCompressor is evaluated over sequences of calls (up to three or four from an alphabet of compress_many of 0 to 2N+1 points, compress_one, finish_current_chunk, compress_chunks, reserve_offset_to_chunk_table, done, "
                       "chunk sizes 1 to 4, plus long ones) on a device that records what is written where as terms over arbitrary points, positions and coded sizes. What is left on the device is compared with the documented image: offset slot, "
                       "chunks back to back, each coded by a freshly set up record coder from exactly its points, chunk table, offset. The step over a chunk boundary is also decided for an arbitrary chunk size with the point counter found by its behaviour.")
    ctx.assumptions = ["record coders code a chunk as a function of its items and points only (C10 to C13)", "positions and sizes are below 2^40 and do not wrap", "points come whole: slices are multiples of the point size"]
