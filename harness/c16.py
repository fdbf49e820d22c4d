"""C16: MCMC steps accept or reject whole consistent points."""
import vlib
from vlib import THOROUGH
import mcmclib

INV = ["StartValid", "OnlyValid", "NoDuplicate", "Ladder", "Counts", "SwapConserves", "Emit"]
BASE = dict(NT=1, NE=1, PTE=False, Beta8=[8], L1=1, L2=3, Ratio=False)


def run(chk):
    for r in list(started(chk)):
        r = chk.done(r), r[0]
        chk.replay_all(r[1], r[0].emitted, mcmclib.replay)


def started(chk):
    for i, (l1, k, seeds) in enumerate([(1, 3, 13), (2, 2, 40), (4, 2, 40)]):
        yield chk.start("exhaustive", "PTMCMC", constants=dict(BASE, L1=l1, K=k, SeedSet=set(range(seeds)), Ratio=bool(i % 2)), invariants=INV)
    for i, (l1, ratio) in enumerate([(1, True), (3, False), (10, True)]):
        yield chk.start("random", "PTMCMC", constants=dict(BASE, L1=l1, K=25, SeedSet={0}, Ratio=ratio), invariants=INV,
                    spec="SimSpec", simulate=400 if THOROUGH else 60, depth=28, seed=vlib.SEED + i)
    # tempered single chains
    for i, b8 in enumerate([[8, 4], [8, 1], [8, 6, 2]]):
        yield chk.start("tempered", "PTMCMC", constants=dict(BASE, NT=len(b8), Beta8=b8, L1=2, L2=100, K=12, SeedSet={0}), invariants=INV,
                    spec="SimSpec", simulate=300 if THOROUGH else 50, depth=15, seed=vlib.SEED + i)
    # several walkers: their moves with respect to each other follow the same rule
    for i, (nt, pte, b8) in enumerate([(1, False, [8]), (2, True, [8, 3]), (2, False, [8, 2])]):
        c = dict(BASE, NT=nt, NE=3 - i % 2, PTE=pte, Beta8=b8, L1=1 + i % 2, L2=1, Ratio=bool(i % 2))
        yield chk.start("ensemble", "PTMCMC", constants=dict(c, K=2, SeedSet=set(range(13))), invariants=INV)
        yield chk.start("ensemble", "PTMCMC", constants=dict(c, K=12, SeedSet={0}), invariants=INV, spec="SimSpec",
                    simulate=200 if THOROUGH else 30, depth=15, seed=vlib.SEED + i)
