"""P19: a matching source is always found, whole sets and selected volumes (spec/Rebuild.tla)."""
from . import prop_p06 as B

PARTS = B.PARTS


def run(ctx):
    q = ctx.quick
    lay = B.layouts(ctx, 16 if q else 80, 8 if q else 40, maxvols=6)
    cases = B.rebuild_cases(ctx, lay, Reals={"path", "moved", "hinted"}, Contents={"right"}, Hints={"none", "real", "bad"},
                            Outs={"free", "yes"})
    good = [c for c in cases if c["avail"]]
    ctx.replay(B.case_rebuild, ctx.sample(good, 2200 if q else 30000), "rebuild")
    ctx.replay(B.case_rebuild, [dict(c, cli=1) for c in ctx.sample(good, 120 if q else 2000)], "cli")
    ctx.assumptions += ["several files of one set have different extensions or sizes (automatic search goes by these two)"]
