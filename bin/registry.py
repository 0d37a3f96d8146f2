"""What each check consists of.  See check.py for the meaning of the fields."""

TSAN = dict(flags=["-fsanitize=thread", "-g"], suffix="_tsan", opt="-O1")

CHECKS = {}


def reg(pid, **kw):
    CHECKS[pid] = kw


def M(name, **kw):
    return dict(dict(module=name, cfg=name + ".cfg"), **kw)


reg("C01", models=[M("MC_Coord")],
    drivers=[dict(src="coords.cpp", mode="identity", spec="T_Coord")],
    must_cover=["identity:"])
reg("C02", models=[M("MC_Coord")],
    drivers=[dict(src="coords.cpp", mode="region", spec="T_Coord")],
    must_cover=["iter:", "region:"])
reg("C03", models=[M("MC_Coord")],
    drivers=[dict(src="coords.cpp", mode="arith", spec="T_Coord")],
    must_cover=["arith:"])
reg("C04", models=[M("MC_Enumerators")],
    drivers=[dict(src="enumerators.cpp", mode="aspect", spec="T_Enumerators")],
    must_cover=["aspect:"])
reg("C05", models=[M("MC_Enumerators")],
    drivers=[dict(src="enumerators.cpp", mode="gray", spec="T_Enumerators")],
    must_cover=["gray:"])
reg("C06", models=[M("MC_Annealing")],
    drivers=[dict(src="annealing.cpp", mode="single", spec="T_Annealing", nondeterministic=True),
             dict(src="annealing.cpp", mode="multi", spec="T_Annealing", nondeterministic=True),
             dict(src="annealing.cpp", mode="multi", spec="T_Annealing", nondeterministic=True, **TSAN)],
    must_cover=["run:", "multi:"],
    assumptions=["data races are observed by ThreadSanitizer on the schedules that occur in the run"])
reg("C07", models=[M("MC_Helpers")],
    drivers=[dict(src="helpers.cpp", mode="combin", spec="T_Helpers")],
    must_cover=["combin:", "pascal:"])
reg("C08", models=[M("MC_Helpers")],
    drivers=[dict(src="helpers.cpp", mode="containers", spec="T_Helpers")],
    must_cover=["queue:", "search:"])
reg("C09", models=[M("MC_Helpers")],
    drivers=[dict(src="helpers.cpp", mode="csv", spec="T_Helpers")],
    must_cover=["csv:"])
reg("C10", models=[],
    drivers=[dict(src="vocabulary.cpp", mode="technology", spec="T_Vocabulary")],
    must_cover=["vocabulary:", "ports:"])
reg("C11", models=[],
    drivers=[dict(src="vocabulary.cpp", mode="sidb", spec="T_Vocabulary")],
    must_cover=["sidb:"])
reg("C12", models=[M("MC_Potential")],
    drivers=[dict(src="potential.cpp", mode="all", spec="T_Potential")],
    must_cover=["potential:"])
reg("L01", models=[M("MC_Topology")],
    drivers=[dict(src="topology.cpp", mode="all", spec="T_Topology")],
    must_cover=["topology:"])
reg("L02", models=[M("MC_Clocking")],
    drivers=[dict(src="clocking.cpp", mode="schemes", spec="T_Clocking"),
             dict(src="clocking.cpp", mode="layouts", spec="T_Clocking")],
    must_cover=["lookup:", "clocked:"])
reg("L03", models=[M("MC_GateLayout", thorough_cfg="MC_GateLayout_thorough.cfg")],
    gens=[dict(name="gl", module="MC_GateLayout", cfg="Gen_GateLayout.cfg", num=60, depth=12)],
    drivers=[dict(src="gatelayout.cpp", mode="random", spec="T_GateLayout"),
             dict(src="gatelayout.cpp", mode="generated", spec="T_GateLayout", gen="gl")],
    must_cover=["gate:"])
CL = [M("MC_CellLayout", thorough_cfg="MC_CellLayout_thorough.cfg")]
reg("L04", models=CL, drivers=[dict(src="cells.cpp", opt="-O0", mode="cells", spec="T_CellLayout")], must_cover=["cells:"])
reg("L05", models=[], drivers=[dict(src="cells.cpp", opt="-O0", mode="convert", spec="T_CellLayout")], must_cover=["cells:conv", "cells:span"])
reg("L06", models=CL, drivers=[dict(src="cells.cpp", opt="-O0", mode="surfaces", spec="T_CellLayout")], must_cover=["cells:"])
PF = {c: [M("MC_PathFinding", cfg=f"MC_PathFinding_{c}.cfg")] for c in ("cart", "odd_row")}
reg("P01", models=PF["cart"], drivers=[dict(src="paths.cpp", opt="-O0", mode="star", spec="T_PathFinding")], must_cover=["paths:"])
reg("P02", models=PF["odd_row"], drivers=[dict(src="paths.cpp", opt="-O0", mode="paths", spec="T_PathFinding")], must_cover=["paths:"])

VM = [M("MC_Verify", thorough_cfg="MC_Verify_thorough.cfg")]
reg("V01", models=VM, drivers=[dict(src="verify.cpp", opt="-O0", mode="drc", spec="T_Verify")], must_cover=["drc:"])
reg("V02", models=[], drivers=[dict(src="verify.cpp", opt="-O0", mode="eq", spec="T_Verify")], must_cover=["eq:"])
reg("V03", models=VM, drivers=[dict(src="verify.cpp", opt="-O0", mode="time", spec="T_Verify")], must_cover=["time:"])
NM = M("MC_Networks", thorough_cfg="MC_Networks_thorough.cfg")
reg("N01", models=[NM], drivers=[dict(src="networks.cpp", opt="-O0", mode="net", spec="T_Networks")], must_cover=["net:net", "net:tts"])
reg("N02", models=[], drivers=[dict(src="networks.cpp", opt="-O0", mode="xform", spec="T_Networks")], must_cover=["net:xf"])
reg("N03", models=[M("MC_Networks", cfg="MC_Networks_ranks.cfg", thorough_cfg="MC_Networks_thorough.cfg")],
    drivers=[dict(src="networks.cpp", opt="-O0", mode="views", spec="T_Networks"),
             dict(src="networks.cpp", opt="-O0", mode="ranks", spec="T_Networks")], must_cover=["net:bfs", "net:rank"])
def DM(c): return M("MC_Design", cfg=f"MC_Design_{c}.cfg", thorough_cfg="MC_Design_thorough.cfg")
reg("D01", models=[DM("and"), DM("fan")], drivers=[dict(src="design.cpp", opt="-O0", mode="ortho", spec="T_Design")], must_cover=["design:ortho"])
reg("D02", models=[DM("swap")], drivers=[dict(src="design.cpp", opt="-O1", mode="gold", spec="T_Design", nondeterministic=True)], must_cover=["design:gold"],
    assumptions=["which of the permitted layouts is returned depends on timeouts and thread schedules; only layouts that occur in the run are judged"])
reg("D03", models=[DM("and")], drivers=[dict(src="design_exact.cpp", opt="-O1", mode="exact", spec="T_Design", flags=["-DFICTION_Z3_SOLVER=1"], libs=["-lz3"], nondeterministic=True)], must_cover=["design:exact"],
    assumptions=["minimality is judged against layouts other methods found for the same network, and only where the search was not cut short by its time limit"])
reg("D04", models=[DM("swap")], drivers=[dict(src="optimize.cpp", opt="-O0", mode="opt", spec="T_Design", nondeterministic=True)], must_cover=["design:optimize", "design:reduce"],
    assumptions=["layouts are those of orthogonal and graph_oriented_layout_design with pins at the border"])
reg("D05", models=[DM("fan")], drivers=[dict(src="optimize.cpp", opt="-O0", mode="turn", spec="T_Design", suffix="turn", nondeterministic=True)], must_cover=["design:turn"],
    assumptions=["layouts are those of orthogonal and graph_oriented_layout_design, possibly optimized"])
SM = M("MC_Sidb", thorough_cfg="MC_Sidb_thorough.cfg")
reg("S01", models=[SM], drivers=[dict(src="sidb.cpp", opt="-O1", mode="surface", spec="T_Sidb")], must_cover=["surface:"],
    assumptions=["potentials, energies and validity are judged up to a rounding uncertainty of 0.3 microvolts", "the Coulomb potential between two positions is computed by the harness"])
reg("S02", models=[SM, M("MC_Sidb", cfg="MC_Sidb_defect.cfg")],
    drivers=[dict(src="sidb.cpp", opt="-O1", mode="engines", spec="T_Sidb", nondeterministic=True),
             dict(src="sidb.cpp", mode="threads", spec="T_Sidb", nondeterministic=True, **TSAN)], must_cover=["engine:engine", "engine:quicksim"],
    assumptions=["configurations within 1 microvolt of a threshold may be reported or not", "QuickSim is randomized; only what it reports in a run is judged"])
reg("S03", models=[], drivers=[dict(src="sidb.cpp", opt="-O1", mode="derived", spec="T_Sidb", nondeterministic=True)], must_cover=["derived:ground", "derived:spectrum", "derived:stability", "derived:tts", "boltzmann:"],
    assumptions=["where energies are too close to be told apart either answer is accepted"])
