"""C21: after seek(i) the next point is point i, whatever was read before."""
import gen, scen

LEVEL = "other"


def run(ctx):
    n = 0
    for kind in ("seq", "par"):
        specs = gen.seeks(kind, ctx.deep)
        n += len(specs)
        scen.run(ctx, specs)
    ctx.floor("sequences of calls", n, 2000)
    ctx.explanation = ("Both decompressors are evaluated on files with one to five chunks of fixed and variable size: seek to every point from several states (new, within a chunk, at the end, after another seek), then reading to the end. Each output byte must be "
                       "that of the expected point with the requested selection. After a seek past the last point the next read must be an error and a later seek must work; without a chunk table seek must be an error.")
    ctx.assumptions = ["a record decoder returns the points of the chunk it starts on (C10 to C13)", "seeking to an index inside the last chunk's nominal size but past its last point is only decided for the parallel decompressor: the sequential one cannot know"]
