"""C22: appending leaves the image of a file written in one go."""
import gen, scen

LEVEL = "other"


def run(ctx):
    n = 0
    for kind in ("seq", "par"):
        specs = gen.appends(kind, ctx.deep)
        n += len(specs)
        scen.run(ctx, specs)
    ctx.floor("sequences of calls", n, 1500)
    ctx.explanation = ("Both appenders are evaluated on files with no to four chunks of fixed and variable size (last chunk full or not, table offset at the start or at the end) for sequences of appending calls. What is on the device afterwards must be the kept "
                       "chunks untouched, the points of the last chunk and the new ones in chunks as the compressor would have made them, one chunk table for all chunks, and its offset.")
    ctx.assumptions = ["record coders code and decode chunks as in C10 to C13", "with variable-size chunks the sequential appender continues the last chunk, the parallel one keeps it as its own chunk"]
