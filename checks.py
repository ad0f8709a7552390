"""What each property's check runs (see check.py).  (quick, thorough) pairs."""
def model(cfg, mod, cap=10**9, **k):
    return dict(kind="model", cfg=cfg + ".cfg", mod=mod + ".tla", cap=cap, **k)
def sim(cfg, mod, num, depth, **k):
    return dict(kind="sim", cfg=cfg + ".cfg", mod=mod + ".tla", num=num, depth=depth, **k)
def design(cfg, mod, **k):
    return dict(cfg=cfg + ".cfg", mod=mod + ".tla", **k)

CHECKS = {
 "C01": dict(driver="drv_graph", trace="GraphTrace",
   design=[design("GraphMC", "GraphMC"),
           design("GraphMCStale", "GraphMC", expect_violation=True)],
   gen=[model("GraphEmit1", "GraphMC", cap=(2500, 40000)),
        sim("GraphSim1", "GraphSim", num=(600, 6000), depth=40),
        sim("GraphSim1Big", "GraphSim", num=(150, 1500), depth=80)]),
 "C02": dict(driver="drv_graph", trace="GraphTrace",
   design=[design("GraphMC", "GraphMC")],
   gen=[model("GraphEmit2", "GraphMC", cap=(2500, 40000)),
        sim("GraphSim2", "GraphSim", num=(600, 6000), depth=40),
        sim("GraphSim2Big", "GraphSim", num=(150, 1500), depth=80)]),
 "C03": dict(driver="drv_graph", args=["2d"], trace="Graph2DTrace",
   design=[design("Graph2DMC", "Graph2DMC")],
   gen=[model("Graph2DEmit", "Graph2DMC", cap=(2500, 20000)),
        sim("Graph2DSim", "Graph2DSim", num=(600, 6000), depth=50)]),
 "C08": dict(driver="drv_swath", args=["swath"], trace="SwathTrace",
   design=[design("SwathMC", "SwathMC")],
   gen=[model("SwathEmit", "SwathMC", cap=(3000, 30000)),
        sim("SwathSim", "SwathSim", num=(800, 8000), depth=60)]),
 "C07": dict(driver="drv_swath", args=["seq"], trace="SwathSeqTrace",
   design=[design("SwathSeqMC", "SwathSeqMC")],
   gen=[model("SwathSeqEmit", "SwathSeqMC", cap=(3000, 30000)),
        sim("SwathSeqSim", "SwathSeqSim", num=(800, 8000), depth=50),
        sim("SwathSeqSimBig", "SwathSeqSim", num=(40, 400), depth=40)]),
 "C05": dict(driver="drv_swath", args=["order"], trace="OrderTrace",
   design=[design("OrderMC", "OrderMC")],
   gen=[model("OrderGen", "OrderGen"), model("OrderGenT", "OrderGen", thorough=True)]),
 "C06": dict(driver="drv_swath", args=["order"], trace="OrderTrace",
   design=[design("OrderMC", "OrderMC")],
   gen=[model("OrderGen", "OrderGen"), model("OrderGenT", "OrderGen", thorough=True)]),
 "C04": dict(driver="drv_route", trace="RouteTrace",
   design=[design("RouteMC", "RouteMC")],
   gen=[model("RouteEmit", "RouteMC", cap=(3000, 40000)),
        sim("RouteSim", "RouteSim", num=(800, 8000), depth=30),
        sim("RouteSimLong", "RouteSim", num=(60, 600), depth=150)]),
 "C24": dict(driver="drv_misc", args=["robot"], trace="RobotTrace",
   design=[design("RobotMC", "RobotMC")],
   gen=[model("RobotEmit", "RobotMC", cap=(3000, 40000)),
        sim("RobotSim", "RobotSim", num=(500, 5000), depth=50)]),
 "C25": dict(driver="drv_misc", args=["spline"], trace="SplineTrace", design=[design("SplineMC", "SplineMC")],
   gen=[model("SplineGen3", "SplineGen"), model("SplineGen40", "SplineGen", thorough=True)]),
 "C22": dict(driver="drv_misc", args=["random"], trace="RandomTrace", design=[],
   gen=[sim("RandomSim", "RandomSim", num=(1200, 6000), depth=40)]),
}
CHECKS["C23"] = dict(driver="drv_misc", args=["parser"], trace="ParserTrace", design=[],
   gen=[sim("ParserSim", "ParserSim", num=(1500, 6000), depth=12)])
CHECKS["C09"] = dict(driver="drv_values", trace="ValuesTrace",
   design=[design("ValuesMC", "ValuesMC")] + [design("ValuesMC" + x, "ValuesMC", expect_violation=True) for x in ("Load", "Add", "Shallow")],
   gen=[sim("ValuesSim", "ValuesSim", num=(3000, 15000), depth=40)])
CHECKS["C10"] = dict(driver="drv_field", trace="FieldRefTrace", design=[design("FieldRefMC", "FieldRefMC")],
   gen=[sim("FieldRefSim", "FieldRefSim", num=(1200, 6000), depth=26)])
CHECKS["C20"] = dict(driver="drv_region", trace="RegionQTrace", design=[design("RegionMC", "RegionMC")],
   gen=[sim("RegionQSim", "RegionQSim", num=(1500, 8000), depth=14)])
CHECKS["C17"] = dict(driver="drv_sg", trace="TracksTrace", design=[design("TracksMC", "TracksMC")],
   gen=[sim("TracksSim", "TracksSim", num=(1600, 8000), depth=9)])
CHECKS["C18"] = dict(driver="drv_sg", trace="BestAngleTrace", design=[],
   gen=[sim("BestAngleSim", "BestAngleSim", num=(500, 2500), depth=7),
        sim("BestAngleSim", "BestAngleSim", num=(250, 1200), depth=7, driver="drv_sgp", seed=1)])
CHECKS["C21"] = dict(driver="drv_obj", trace="ObjectivesTrace", design=[design("ObjectivesMC", "ObjectivesMC")],
   gen=[sim("ObjectivesSim", "ObjectivesSim", num=(1200, 8000), depth=11)])
CHECKS["C16"] = dict(driver="drv_hl", trace="HeadlandTrace", design=[design("HeadlandMC", "HeadlandMC")],
   gen=[sim("HeadlandSim", "HeadlandSim", num=(800, 4000), depth=9)])
CHECKS["C19"] = dict(driver="drv_decomp", trace="DecompTrace", design=[design("DecompMC", "DecompMC")],
   gen=[sim("DecompSim", "DecompSim", num=(800, 4000), depth=7)])
for i_ in ("C11", "C12"):
  CHECKS[i_] = dict(driver="drv_turn", trace="TurnTrace",
   design=[design("TurnMC", "TurnMC")] + ([design("TurnMCStale", "TurnMC", expect_violation=True)] if i_ == "C11" else []),
   gen=[sim("TurnSim", "TurnSim", num=(2500, 15000), depth=31)])
CHECKS["C13"] = dict(driver="drv_path", trace="PathSeqTrace", design=[design("PathSeqMC", "PathSeqMC")],
   gen=[sim("PathSeqSim", "PathSeqSim", num=(2500, 15000), depth=25)])
CHECKS["C14"] = dict(driver="drv_plan", trace="PlanTrace", design=[design("PlanMC", "PlanMC")],
   gen=[sim("PlanSim", "PlanSim", num=(1200, 6000), depth=7)])

CHECKS["C15"] = dict(driver="drv_rplan", trace="RplanTrace",
   design=[design("RplanMC" + x, "RplanMC", expect_violation=x == "SharedDir") for x in ("", "Dir", "Shared", "SharedDir")],
   gen=[sim("RplanSim", "RplanSim", num=(500, 1500), depth=4)])

CHECKS["C26"] = dict(driver="drv_plane", trace="PlaneTrace", design=[design("PlaneMC", "PlaneMC")],
   gen=[sim("PlaneSim", "PlaneSim", num=(800, 6000), depth=60)])
CHECKS["C28"] = dict(driver="drv_curve", trace="CurveTrace", design=[design("CurveMC", "CurveMC")],
   gen=[sim("CurveSim", "CurveSim", num=(1500, 10000), depth=12)])
CHECKS["C27"] = dict(driver="drv_whole", trace="WholeTrace", design=[design("WholeMC", "WholeMC")],
   gen=[sim("WholeSim", "WholeSim", num=(180, 900), depth=4)])
