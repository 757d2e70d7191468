"""Which configurations decide which property."""
import build
PORTS = ["ts", "mt", "pt", "pr", "mpi3"]
ASSUME = ["MPI, POSIX shared memory, semaphores, threads and libc memcpy are replaced by /verif/sim (MPI-3.1 semantics; sequentially consistent memory)",
          "only schedules with at most the stated number of deviations from the default schedule are explored"]
PROPS = {}
def prop(f): PROPS[f.__name__] = f; return f

def comex_sos(c, harness, ports=PORTS, defs=()):
    objs = {p: c.B.comex(p) + c.B.harness(harness, p, defs) for p in ports}
    c.B.compile()
    return {p: c.B.link("%s_%s" % (harness[0].split(".")[0], p), o) for p, o in objs.items()}

# (ranks, nodes) for n user processes: pr needs one more rank per node
def topo(port, n, nodes=1):
    if port == "pr":
        if nodes == 1: return dict(np=n + 1, nodes=None)
        if nodes == 2:
            a = (n + 1) // 2
            return dict(np=n + 2, nodes=",".join(["0"] * (a + 1) + ["1"] * (n - a + 1)))
        if nodes == 3: return dict(np=2 * n, nodes=",".join("%d,%d" % (i, i) for i in range(n)))
    if nodes == 1: return dict(np=n, nodes=None)
    if nodes == 2: return dict(np=n, nodes=",".join(["0"] * ((n + 1) // 2) + ["1"] * (n // 2)))
    return dict(np=n, nodes=",".join(str(i) for i in range(n)))

@prop
def C01(c):
    so = comex_sos(c, ["h_xfer.c"])
    PRENV = [{}, {"COMEX_STATIC_BUFFER_SIZE": 64, "COMEX_MAX_MESSAGE_SIZE": 100}, {"COMEX_EAGER_THRESHOLD": 1024}, {"COMEX_PUT_DATATYPE_THRESHOLD": 4, "COMEX_GET_DATATYPE_THRESHOLD": 4},
             {"COMEX_ENABLE_PUT_PACKED": 0, "COMEX_ENABLE_GET_PACKED": 0, "COMEX_ENABLE_PUT_DATATYPE": 0, "COMEX_ENABLE_GET_DATATYPE": 0},
             {"COMEX_ENABLE_PUT_SELF": 0, "COMEX_ENABLE_GET_SELF": 0, "COMEX_ENABLE_PUT_SMP": 0, "COMEX_ENABLE_GET_SMP": 0},
             {"COMEX_ENABLE_PUT_IOV": 0, "COMEX_ENABLE_GET_IOV": 0, "COMEX_MAX_NB_OUTSTANDING": 1}]
    for p in PORTS:
        for eager in (None, 0):
            for nodes in (1, 2) if p in NODED or c.thorough else (1,):
                envs = PRENV if p == "pr" and eager is None else [{}]
                for e in envs:
                    c.run(so[p], "shapes", eager=eager, env=e, rma=2 if p == "mpi3" and eager == 0 else None, opts={"deep": 1} if c.thorough else None, **topo(p, 3, nodes))
        for e in (PRENV[:2] + PRENV[3:5] if p == "pr" else [{}]):
            c.run(so[p], "shapes", opts={"big": 1, "armcilocal": 1, "origin": 2}, env=dict(e, COMEX_MAX_MESSAGE_SIZE=5000) if e else e, eager=4096, workers=4, **topo(p, 3, 2))
        for nodes in (1, 2) if p in NODED or c.thorough else (1,):
            for eager in (None, 16):
                c.run(so[p], "conc", budget=2 if c.thorough else 1, eager=eager, workers=4, **topo(p, 3, nodes))

NODED = ("pt", "pr")
def topos(p, n): return [topo(p, n, k) for k in ((1, 2) if p in NODED else (1,))]
@prop
def C02(c):
    so = comex_sos(c, ["h_xfer.c"]); so2 = comex_sos(c, ["h_cx.c"])
    t = {p: c.B.link("h_cx_tsan_" + p, c.B.comex(p, ["-fsanitize=thread"]) + c.B.harness(["h_cx.c"], p)) for p in ("mt", "pt", "pr", "mpi3")}
    AENV = [{}, {"COMEX_STATIC_BUFFER_SIZE": 64, "COMEX_MAX_MESSAGE_SIZE": 100}, {"COMEX_EAGER_THRESHOLD": 1024}, {"COMEX_ENABLE_ACC_PACKED": 0, "COMEX_ENABLE_ACC_IOV": 0}, {"COMEX_ENABLE_ACC_SELF": 0, "COMEX_ENABLE_ACC_SMP": 0}]
    for p in PORTS:
        for tp in topos(p, 3):
            for e in (AENV if p == "pr" else [{}]): c.run(so[p], "accshapes", env=e, opts={"deep": int(c.thorough)}, **tp)
            for eager in (None, 0): c.run(so2[p], "accs", budget=2 if c.thorough else 1, eager=eager, workers=4, **tp)
        c.run(so[p], "accshapes", opts={"big": 1}, eager=4096, env={"COMEX_MAX_MESSAGE_SIZE": 5000} if p == "pr" else {}, **topo(p, 2, 2))
        if p in t:
            for tp in topos(p, 2): c.run(t[p], "accs", tsan=1, budget=3 if c.thorough else 2, kinds=0x81, opts={"types": 2, "elems": 2}, workers=4, **tp)

@prop
def C03(c):
    so = comex_sos(c, ["h_cx.c"])
    for p in PORTS:
        for n in (2, 3):
            for tp in topos(p, n):
                for rma in ((0, 1, 2) if p == "mpi3" else (None,)):
                    c.run(so[p], "rmw", budget=(4 if n == 2 else 3) if c.thorough else 2 if n == 2 or p != "ts" else 1, rma=rma, workers=4, **tp)
        c.run(so[p], "rmw", budget=3 if c.thorough else 1, opts={"ops": 2}, workers=4, **topo(p, 3, 2))
        c.run(so[p], "rmw", budget=2 if c.thorough else 1, eager=0, workers=4, **topo(p, 4, 2))
@prop
def C04(c):
    so = comex_sos(c, ["h_cx.c"])
    for p in PORTS:
        for tp in topos(p, 3):
            c.run(so[p], "mutex", budget=2 if c.thorough else 1, workers=4, **tp)
            c.run(so[p], "mutex", budget=1 if c.thorough else 0, opts={"ops": 2}, eager=0, workers=4, **tp)
        c.run(so[p], "mutex", budget=3 if c.thorough else 2, opts={"cases": 2}, workers=4, **topo(p, 2, 2))
@prop
def C05(c):
    so = comex_sos(c, ["h_cx.c"])
    for p in PORTS:
        for tp in topos(p, 3):
            for eager in (None, 0):
                for rma in ((0, 2) if p == "mpi3" else (None,)): c.run(so[p], "fence", budget=2 if c.thorough else 1, eager=eager, rma=rma, workers=4, **tp)
            c.run(so[p], "barrier", budget=3 if c.thorough else 1 if p == "ts" else 2, workers=4, **tp)
@prop
def C07(c):
    so = comex_sos(c, ["h_cx.c"])
    for p in PORTS:
        for tp in topos(p, 2):
            for eager in (None, 0):
                if c.thorough: c.run(so[p], "prog", budget=2, eager=eager, workers=4, **tp)
                else:
                    c.run(so[p], "prog", eager=eager, workers=4, **tp)
                    c.run(so[p], "prog", budget=1, opts={"who": 1}, eager=eager, workers=4, **tp)
                    if eager == 0: c.run(so[p], "prog", budget=1, opts={"alpha": 4}, eager=eager, workers=4, **tp)
                c.run(so[p], "prog", budget=1 if c.thorough else 0, opts={"len": 2, "alpha": 12 if c.thorough else 7}, eager=eager, workers=4, **tp)
        for tp in topos(p, 3): c.run(so[p], "prog", budget=1 if c.thorough else 0, opts={"alpha": 12}, eager=0, workers=4, **tp)
@prop
def C06(c):
    so = comex_sos(c, ["h_nb.c"])
    for p in PORTS:
        rma = 2 if p == "mpi3" else None
        for tp in topos(p, 3):
            envs = [{}] if p == "ts" else [{}, {"COMEX_MAX_NB_OUTSTANDING": 3}] if p in ("mt", "pt") else [{}, {"COMEX_MAX_NB_OUTSTANDING": 1}]
            if p == "pr": envs += [{"COMEX_MAX_MESSAGE_SIZE": 64, "COMEX_STATIC_BUFFER_SIZE": 64}]
            for i, env in enumerate(envs):
                for eager in (None, 0) if i == 0 or c.thorough else (0,):
                    c.run(so[p], "nb", eager=eager, env=env, rma=rma, **tp)
                    if p in ("mt", "pt") and env: env = {"COMEX_MAX_NB_OUTSTANDING": 4}
                    c.run(so[p], "nb", eager=eager, env=env, rma=rma, opts={"K": 3, "alpha": 8 if c.thorough else 4}, **tp)
        c.run(so[p], "nb", budget=2 if c.thorough else 1, eager=0, opts={"alpha": 8 if c.thorough else 4}, rma=rma, workers=4, **topo(p, 2, 2))
@prop
def C08(c):
    so = comex_sos(c, ["h_grp.c"])
    for p in PORTS:
        o = {"cx": 0} if p == "mpi3" else {}
        for tp in topos(p, 4): c.run(so[p], "grp", eager=0, opts=o, **tp)
        if p == "ts": c.run(so[p], "grp", budget=2 if c.thorough else 1, workers=4, opts=o, **topo(p, 2))
        for tp in topos(p, 3) if c.thorough else [topo(p, 3, 2)] if p != "ts" else []:
            c.run(so[p], "grp", budget=2 if c.thorough else 1, workers=4, opts=o, **tp)
        c.run(so[p], "grp", opts=dict(o, nonmembers=1), **topo(p, 4, 2))
        if c.thorough: c.run(so[p], "grp", opts=o, **topo(p, 5, 2))
    c.run(so["mpi3"], "grp", name="mpi3-comex-group-ranks", np=2)
    ga = ga_sos(c, ["h_pg.c"], ports=("ts", "pr") if c.thorough else ("ts",))
    for p in sorted(ga):
        for n in (1, 2, 3, 4) + ((5, 6) if c.thorough else ()):
            t = topo(p, n, 2) if n > 2 else topo(p, n)
            for sc in ("create", "split", "dup"): c.run(ga[p], sc, **t)
@prop
def C09(c):
    so = comex_sos(c, ["h_mem.c"])
    for p in PORTS:
        for tp in topos(p, 3):
            c.run(so[p], "mem", opts={"len": 4 if c.thorough else 3}, **tp)
            if c.thorough or tp == topos(p, 3)[-1]: c.run(so[p], "mem", eager=0, budget=2 if c.thorough else 1, opts={"len": 2 if c.thorough else 1}, workers=4, **tp)
            c.run(so[p], "mem", eager=0, opts={"len": 4 if c.thorough else 2}, **tp)
def ga_sos(c, harness, ports=("ts",), gp=False, xx=False, libs=("-lgfortran", "-lm")):
    objs = {p: c.B.comex(p) + c.B.ga(gp) + (c.B.gaxx() if xx else []) + c.B.harness(harness, p) for p in ports}
    c.B.compile()
    return {p: c.B.link("%s_%s" % (harness[0].split(".")[0], p), o, libs) for p, o in objs.items()}
@prop
def G10(c):
    so = ga_sos(c, ["h_dist.c"])["ts"]
    for n in (1, 2, 3, 4, 6) + ((5, 8) if c.thorough else ()):
        c.run(so, "dist", np=n, opts={"nd": 1, "max": 20 if c.thorough else 9})
        c.run(so, "dist", np=n, opts={"nd": 2, "max": 9 if c.thorough else 5})
        c.run(so, "dist", np=n, opts={"nd": 3, "max": 5 if c.thorough else 3})
        if n > 3 or c.thorough: c.run(so, "dist", np=n, opts={"nd": 4, "max": 3 if c.thorough else 2})
        if c.thorough: c.run(so, "dist", np=n, opts={"nd": 5, "max": 2}); c.run(so, "dist", np=n, opts={"nd": 7, "max": 2}); c.run(so, "dist", np=n, opts={"nd": 2, "max": 4, "big": 7})
        if n > 2: c.run(so, "dist", np=n, opts={"nd": 2, "max": 5 if c.thorough else 4, "sub": 1})
    c.run(so, "dist", np=4, opts={"nd": 2, "max": 3, "big": 6})
def grid(c, so, sc, quick, deep, base=None):
    """quick/deep: (np, options)"""
    for n, o in (quick + deep if c.thorough else quick): c.run(so, sc, np=n, opts=dict(base or {}, **o))
@prop
def G11(c):
    so = ga_sos(c, ["h_patch.c"])["ts"]
    Q = [(n, o) for n in (1, 2, 3, 4) for o in ({"nd": 1, "max": 6}, {"nd": 2, "max": 4}, {"nd": 3, "max": 2})] + [(6, {"nd": 2, "max": 3}), (4, {"nd": 2, "max": 4, "types": 1, "fix": 1}), (4, {"nd": 4, "max": 2, "fix": 1}), (4, {"nd": 3, "max": 3, "fix": 1, "stride": 3}), (4, {"nd": 2, "max": 3, "sub": 1})]
    D = [(n, o) for n in (2, 3, 4, 5, 6, 8) for o in ({"nd": 1, "max": 14}, {"nd": 2, "max": 6}, {"nd": 3, "max": 3}, {"nd": 4, "max": 2}, {"nd": 7, "max": 2, "fix": 1, "stride": 37}, {"nd": 2, "max": 3, "big": 9, "stride": 101}, {"nd": 2, "max": 5, "fix": 1, "types": 1})] + [(n, {"nd": 2, "max": 4, "sub": 1}) for n in (3, 5)]
    grid(c, so, "patch", Q, D)
    for n in (2, 4): c.run(so, "nb", np=n, opts={"nd": 2, "max": 5 if c.thorough else 4}); c.run(so, "nb", np=n, opts={"nd": 1, "max": 9})
    c.run(so, "nb", np=3, opts={"nd": 3, "max": 3 if c.thorough else 2})
    for n in (1, 3, 4): c.run(so, "field", np=n, opts={"nd": 2, "max": 4 if c.thorough else 3}); c.run(so, "rdonly", np=n, opts={"nd": 2, "max": 4 if c.thorough else 3})
    c.run(so, "rdonly", np=3, nodes="0,0,1", opts={"nd": 2, "max": 3}); c.run(so, "rdonly", np=4, nodes="0,0,1,1", opts={"nd": 2, "max": 4 if c.thorough else 3})
    for n in (1, 3): c.run(so, "oor", np=n, opts={"nd": 2}); c.run(so, "oor", np=n, opts={"nd": 1}); c.run(so, "oor", np=n, opts={"nd": 3})
@prop
def G12(c):
    so = ga_sos(c, ["h_patch.c"])["ts"]
    Q = [(n, o) for n in (1, 2, 3, 4) for o in ({"nd": 1, "max": 6}, {"nd": 2, "max": 4}, {"nd": 3, "max": 2})] + [(6, {"nd": 2, "max": 3}), (4, {"nd": 2, "max": 4, "types": 1, "fix": 1}), (4, {"nd": 3, "max": 3, "fix": 1, "stride": 3}), (4, {"nd": 2, "max": 3, "sub": 1})]
    D = [(n, o) for n in (2, 3, 4, 5, 6, 8) for o in ({"nd": 1, "max": 14}, {"nd": 2, "max": 6}, {"nd": 3, "max": 3}, {"nd": 4, "max": 2}, {"nd": 2, "max": 3, "big": 9, "stride": 101}, {"nd": 2, "max": 5, "fix": 1, "types": 1})] + [(n, {"nd": 2, "max": 4, "sub": 1}) for n in (3, 5)]
    grid(c, so, "elems", Q, D); grid(c, so, "strided", Q, D); grid(c, so, "periodic", Q, D)
@prop
def G13(c):
    so = ga_sos(c, ["h_ghost.c"])["ts"]
    for n in (1, 2, 3, 4, 6):
        c.run(so, "ghost", np=n, opts={"nd": 1, "max": 14 if c.thorough else 9, "nw": 4 if c.thorough else 3})
        c.run(so, "ghost", np=n, opts={"nd": 2, "min": 1, "max": 9 if c.thorough else 6, "nw": 5})
        c.run(so, "ghost", np=n, opts={"nd": 3, "min": 2, "max": 4 if c.thorough else 2, "nw": 3})
    for n in (3, 5):
        for s in (1, 2): c.run(so, "ghost", np=n, opts={"nd": 2, "min": 2, "max": 4, "sub": s})
    if c.thorough:
        for n in (8, 9, 12): c.run(so, "ghost", np=n, opts={"nd": 2, "min": 2, "max": 8, "nw": 5})
        c.run(so, "ghost", np=8, opts={"nd": 3, "min": 4, "max": 3}); c.run(so, "ghost", np=4, opts={"nd": 4, "min": 2, "max": 2})
@prop
def G14(c):
    so = ga_sos(c, ["h_coll.c"])["ts"]
    q = not c.thorough
    for n in (1, 2, 3, 4, 6):
        c.run(so, "unary", np=n, opts={"nd": 1, "max": 5 if q else 9, "allt": 1, "ust": 4 if q else 1, "thin": q}); c.run(so, "unary", np=n, opts={"nd": 2, "max": 3 if q else 6, "ust": 3 if q else 1, "allt": 0 if q else 1})
        c.run(so, "binary", np=n, opts={"nd": 1, "min": 4 if q else 3, "max": 1 if q else 5, "bst": 2, "alq": q, "thin": q}); c.run(so, "binary", np=n, opts={"nd": 2, "min": 2, "max": 1 if q and n in (2, 6) else 2 if q else 4, "bst": 5 if q else 2, "bop": 1 if q else 0, "alq": q, "thin": q})
        c.run(so, "mat", np=n, opts={"nd": 2, "min": 1, "max": (2 if n == 6 else 3) if q else 5, "allt": 0 if q else 1, "thin": q})
        c.run(so, "median", np=n, opts={"nd": 2, "min": 2, "max": 1 if q else 3, "bst": 7 if q else 2, "thin": q})
    for n in (2, 4): c.run(so, "unary", np=n, opts={"nd": 3, "min": 2, "max": 1 if q else 2, "ust": 5 if q else 1}); c.run(so, "binary", np=n, opts={"nd": 3, "min": 2, "max": 1 if q else 2, "bst": 11 if q else 3, "alq": q, "thin": q})
    for n in (2, 4): c.run(so, "median", np=n, opts={"nd": 1, "min": 3, "max": 1 if q else 4, "bst": 3, "thin": q})
    c.run(so, "unary", np=3, opts={"nd": 2, "max": 3, "ust": 3, "sub": 1}); c.run(so, "binary", np=4, opts={"nd": 2, "min": 2, "max": 1 if q else 2, "bst": 7, "sub": 1, "alq": q, "thin": q}); c.run(so, "mat", np=4, opts={"nd": 2, "min": 2, "max": 2, "sub": 1, "thin": q})
@prop
def M18(c):
    so = ga_sos(c, ["h_ma.c"])["ts"]
    for ts in (0, 1, 2, 3):
        for al in (0, 4):
            c.run(so, "ma", np=1, opts={"types": ts, "align": al, "depth": 6 if c.thorough and ts < 3 else 5})
    c.run(so, "ma", np=1, opts={"types": 0, "depth": 5 if c.thorough else 4, "sizes": 4}); c.run(so, "ma", np=1, opts={"types": 1, "heap": 1500, "depth": 6 if c.thorough else 5, "big": 20, "guards": 1})
    if c.thorough:
        for ts in (0, 1, 2): c.run(so, "ma", np=1, opts={"types": ts, "depth": 6, "heap": 1200, "stack": 900})
    c.run(so, "many", np=1)
    for n in (1, 2) + ((3,) if c.thorough else ()): c.run(so, "sizing", np=1, opts={"len": n})
@prop
def G15(c):
    so = ga_sos(c, ["h_mat.c"])["ts"]
    sm = c.B.link("h_mat_small", c.B.comex("ts") + c.B.ga(without=("global/src/matmul.c",)) + [c.B.variant("global/src/matmul.c", dict(CHUNK_SIZE=4, MIN_CHUNK_SIZE=3, BLOCK_SIZE=8), ["global/src/matmul.h"], [("if (max_chunk < 32) max_chunk = 32;", "if (max_chunk < 3) max_chunk = 3;")])] + c.B.harness(["h_mat.c"], "ts"))
    q = not c.thorough
    for n, nodes in ((1, None), (2, None), (4, None), (3, "0,0,1"), (4, "0,0,1,1")) + (() if q else ((6, None), (5, "0,0,0,1,1"))):
        k = 1 if n < 3 else 3
        for s, ns in ((so, 3), (sm, 8)):
            for sc in ("gemm", "mpatch") + (("fpatch",) if n in (2, 3) or not q else ()): c.run(s, sc, np=n, nodes=nodes, opts={"ns": ns, "thin": (241 * k if s is sm else 13 * k) if q else 7 * k if s is sm else 1})
            if n != 4 or not q or s is sm: c.run(s, "mpatch3", np=n, nodes=nodes, opts={"ns": 3, "thin": 11 * k if q else 1})
        if nodes is None or not q:
            c.run(so, "transpose", np=n, nodes=nodes, opts={"ns": 4, "thin": 7 * k if q else 1}); c.run(so, "symm", np=n, nodes=nodes, opts={"ns": 5 if q else 8}); c.run(so, "symm", np=n, nodes=nodes, opts={"ns": 3, "nd": 3})
            c.run(so, "tcopy", np=n, nodes=nodes, opts={"ns": 3, "nd": 2, "thin": 5 * k if q else 1}); c.run(so, "tcopy", np=n, nodes=nodes, opts={"ns": 2, "nd": 3, "thin": 17 * k if q else 1})
    for sc in ("gemm", "mpatch", "transpose", "symm", "tcopy"): c.run(so, sc, np=4, opts={"ns": 3, "thin": 1 if sc == "symm" else 29 if q else 3, "sub": 1})
@prop
def G16(c):
    so = ga_sos(c, ["h_red.c"], ports=("ts", "pr"))
    q = not c.thorough
    for n in (1, 2, 3, 4, 5) + (() if q else (6, 8)):
        for sh in (0, 1, 2) if n in (3, 4) or not q else (0,):
            c.run(so["ts"], "gop", np=n, opts={"shape": sh, "lens": (5 if n < 5 else 3) if q else 8}); c.run(so["ts"], "brdcst", np=n, opts={"shape": sh, "lens": 7 if q else 9})
    for p in ("ts", "pr"):
        c.run(so[p], "gop", opts={"shape": 2}, **topo(p, 3, 2)); c.run(so[p], "brdcst", opts={"lens": 7}, **topo(p, 3, 2))
        for n in (2, 3):
            for sc in ("gop", "brdcst"): c.run(so[p], sc, budget=2 if c.thorough else 1, workers=4, eager=0, opts={"traffic": 1, "cases": 30 if c.thorough else 6 if n == 2 else 1, "lens": 3}, **topo(p, n))
@prop
def T23(c):
    q = not c.thorough
    src = "tcgmsg/tcgmsg-mpi/collect.c"
    objs = {p: c.B.comex(p) + c.B.ga(without=(src,)) + [c.B.variant(src, dict(DGOP_BUF_SIZE=8, IGOP_BUF_SIZE=7))] + c.B.harness(["h_tcg.c"], p) for p in PORTS}
    c.B.compile()
    so = {p: c.B.link("h_tcg_" + p, o) for p, o in objs.items()}
    for n in (1, 2, 3, 4, 5): c.run(so["ts"], "coll", **topo("ts", n))
    c.run(so["pr"], "coll", **topo("pr", 3))
    for eager in (None, 0, 50):
        c.run(so["ts"], "p2p", eager=eager, **topo("ts", 3))
        c.run(so["ts"], "p2p", eager=eager, budget=2 if c.thorough else 1, opts={"thin": 17 if q else 3}, workers=4, **topo("ts", 3))
        for p in ("ts", "pr"):
            for n in (2, 3): c.run(so[p], "mix", eager=eager, budget=2 if n == 2 and eager == 0 or c.thorough else 1, opts={"col": 2} if p == "ts" else {}, workers=4, **topo(p, n))
    for n in (1, 2, 3): c.run(so["ts"], "pfcopy", **topo("ts", n)); c.run(so["ts"], "pfcopy", budget=1 if q else 2, opts={"io": 1}, kinds=0x40, workers=4, **topo("ts", n))
    c.run(so["pr"], "pfcopy", **topo("pr", 3))
    c.run(so["ts"], "p2p", eager=0, opts={"rounds": 3, "thin": 5}, **topo("ts", 3))
    for p in PORTS:
        for n in (2, 3): c.run(so[p], "nxtval", budget=3 if c.thorough else 2 if n == 2 and p == "mpi3" else 1, workers=4, **topo(p, n))
        for v in (0, 1) if p == "ts" else (0, 1, 2, 3): c.run(so[p], "ga", eager=0, budget=2 if c.thorough else 1, opts={"v": v}, workers=4, **topo(p, 2))
        c.run(so[p], "ga", eager=0, opts={"t1": 27624, "v": 0}, **topo(p, 2)); c.run(so[p], "ga", eager=0, opts={"t1": 32767, "v": 1}, **topo(p, 3))
@prop
def D20(c):
    q = not c.thorough
    so = ga_sos(c, ["h_io.c"])["ts"]
    IFS = [{"iface": 0}, {"iface": 1}, {"iface": 1, "memA": 1}, {"iface": 1, "memB": 1}, {"iface": 1, "memA": 1, "memB": 1}]
    for o in IFS:
        c.run(so, "prog", np=1, opts=dict(o, len=4 if q else 5))
        if not o.get("memA"):
            for io in (1, 2, 4, 7): c.run(so, "prog", np=1, budget=1 if q else 2, opts=dict(o, len=2 if io == 7 else 3, inner=0, io=io, thin=1 if io == 7 else 23 if q else 3), workers=4)
    for n in (1, 2, 3, 5): c.run(so, "sf", np=n)
    c.run(so, "sf", np=2, budget=1, opts={"io": 3, "iosched": 0}, kinds=0x40, workers=4)
    c.run(so, "sf", np=2, budget=1, opts={}, workers=4)
@prop
def D19(c):
    q = not c.thorough
    src = ("pario/dra/disk.arrays.c", "pario/dra/buffers.c")
    full = c.B.comex("ts") + c.B.harness(["h_dra.c"], "ts")
    small = full + c.B.ga(without=src) + [c.B.variant(s, dict(DBL_BUF_SIZE=8), ["pario/dra/buffers.h", "pario/dra/drap.h"]) for s in src]
    full = full + c.B.ga()
    c.B.compile()
    so = {"": c.B.link("h_dra", full), "small": c.B.link("h_dra_small", small)}
    for k in ("", "small"):
        for n, nodes in ((1, 1), (2, 2), (3, 1), (4, 2)):
            for sc in ("sect", "trans"): c.run(so[k], sc, opts={"maxarr": 8 if n & 1 else -1, "sthin": 1 if not q else 2 if n == 1 else 11, "thin": (1, 1, 2, 5, 8)[n] if q else 1}, **topo("ts", n, nodes))
            if n > 1:
                for tr in (0, 1): c.run(so[k], "multi", opts={"thin": (0, 0, 7, 17, 29)[n] if q else 1, "tr": tr}, **topo("ts", n, nodes))
    for sc in ("sect", "trans"):
        c.run(so["small"], sc, budget=1, opts={"io": 3, "iosched": 0, "sthin": 61 if q else 31, "thin": 47 if q else 2}, kinds=0x40, workers=4, **topo("ts", 1))
    for tr in (0, 1):
        for core in (1, 2):
            for n in (2, 3) if c.thorough else (2,): c.run(so["small"], "multi", eager=0, budget=1, opts={"thin": 29 if c.thorough else 503, "tr": tr, "core": core}, workers=4, **topo("ts", n))
@prop
def G17(c):
    so = ga_sos(c, ["h_scan.c"])["ts"]
    q = not c.thorough
    for n, nodes in ((1, 1), (2, 1), (3, 2), (4, 1), (5, 2)):
        for ln in ((3, 6) if q else (1, 2, 3, 4, 5, 6, 7)):
            c.run(so, "scan", opts={"len": ln, "thin": (1, 1, 1, 2, 3, 5)[n] if q and ln > 3 else 1, "per": 4, "strd": 1 if ln < 5 or n < 3 or not q else 2}, **topo("ts", n, nodes))
        c.run(so, "select", opts={"thin": 1 if n < 4 else 2, "step": 1 if n < 3 or not q else 2}, **topo("ts", n, nodes))
        for nb, T in ((1, 1), (2, 3), (3, 4), (4, 5)):
            tot = (nb * n) ** T
            for sort in (0, 1, 2): c.run(so, "bins", opts={"bins": nb, "T": T, "sort": sort, "per": 20, "thin": max(1, tot // (800 if q else 20000) | 1)}, **topo("ts", n, nodes))
    for n in (2, 3):
        c.run(so, "bins", opts={"bins": 3, "T": 3, "sort": 1, "perm": 1, "per": 1, "thin": (1 if n == 2 else 13) if q else 1, "core": 1}, budget=1, eager=0, workers=4, **topo("ts", n))
@prop
def G25(c):
    so = ga_sos(c, ["h_gp.c"], ports=PORTS)
    q = not c.thorough
    for n, nodes in ((1, 1), (2, 1), (3, 2), (4, 1)) + (() if q else ((6, 2),)):
        c.run(so["ts"], "gp", opts={"ns": 6 if q else 10, "thin": 1}, **topo("ts", n, nodes))
    for n in (2, 3): c.run(so["mt"], "gp", opts={"ns": 6 if q else 10, "thin": 7 if q else 1}, **topo("mt", n, n - 1))
    for p, n in (("ts", 2), ("ts", 3), ("mt", 2)) + (() if q else (("mt", 3),)):
        c.run(so[p], "gp", opts={"core": 1, "thin": (3 if n == 2 else 5) if q else 1}, budget=1 if q or p != "ts" else 2, eager=0, workers=4, **topo(p, n, 1 if n == 2 else 2))
    c.run(so["pr"], "gp", opts={"ns": 6, "thin": 7 if q else 1}, **topo("pr", 1))
    for p in ("pt", "pr", "mpi3"): c.run(so[p], "gp", name="gp-remote-%s" % p, opts={"ns": 6, "thin": 37}, **topo(p, 2))
@prop
def G21(c):
    so = ga_sos(c, ["h_sprs.c"])["ts"]
    for n, thin in ((4, 11), (3, 9), (2, 5), (1, 5)):
        for op in range(15): c.run(so, "sprs%d" % op, opts={"op": op, "ns": 12, "thin": 1 if c.thorough else thin}, **topo("ts", n))
    if c.thorough:
        for n, nodes in ((4, 2), (6, 3), (5, 1)):
            for op in range(15): c.run(so, "sprs%d" % op, opts={"op": op, "ns": 12, "thin": 5}, **topo("ts", n, nodes))

@prop
def G22(c):
    so = ga_sos(c, ["h_hdl.c"])["ts"]
    q = not c.thorough
    for n, nodes in ((1, 1), (2, 1), (3, 2), (4, 1)):
        for ks in range(5):
            for lim in (0, 1):
                if q and n == 4 and ks in ((1, 3) if lim else (2,)): continue
                if ks in (2, 3) and lim: continue
                c.run(so, "life", opts={"kinds": ks, "depth": 3 if q else 4, "limits": lim, "fix": 2 if q else 3}, **topo("ts", n, nodes))
        c.run(so, "life", opts={"kinds": n % 5, "depth": 2, "term": 1}, **topo("ts", n, nodes))
    for ks in range(5):
        for core in (1, 2): c.run(so, "life", opts={"kinds": ks, "core": core, "thin": 5 if q else 1}, budget=1, eager=0, workers=2 if q else 4, **topo("ts", 2))
    if not q:
        for ks in range(5): c.run(so, "life", opts={"kinds": ks, "core": 1}, budget=1, eager=0, workers=4, **topo("ts", 3, 2)); c.run(so, "life", opts={"kinds": ks, "core": 1}, budget=2, eager=0, workers=4, **topo("ts", 2))

@prop
def G24(c):
    so = ga_sos(c, ["h_lang.c", "h_langxx.cc"], xx=True)["ts"]
    for n in (1, 2, 3, 4) + ((5, 6) if c.thorough else ()):
        c.run(so, "lang", np=n, opts={"mode": 0, "ns": 14 if c.thorough else 6, "nk": 7 if c.thorough else 4})
        c.run(so, "lang", np=n, opts={"mode": 1, "ns": 14 if c.thorough else 3})
        c.run(so, "lang", np=n, opts={"mode": 2, "ns": 14 if c.thorough else 6})
