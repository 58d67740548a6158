BOOST = ["-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lyaml"]
SETS = {"core": ["core/%s.cpp" % n for n in ("Environment", "Event", "EventHandler", "EventSource", "FrameNode", "Layer", "Operator",
                                            "Serialization", "SerializationFactory", "Transform")]}
LV = "model_checking"
SPECS = {
    "T01": dict(harness=["T01.cpp"], level=LV),
    "T02": dict(harness=["T02.cpp"], repo=["tools/BoxLookUpTable.cpp"], fill=127, level=LV),
    "T03": dict(harness=["T03.cpp"], repo=["tools/RadialLookUpTable.cpp"], fill=127, level=LV),
    "T04": dict(harness=["T04.cpp"], repo=["tools/BresenhamLine.cpp"], level=LV),
    "T05": dict(harness=["T05.cpp"], level=LV),
    "T06": dict(harness=["T06.cpp"], level=LV),
    "T07": dict(harness=["T07.cpp"], level=LV),
    "E01": dict(harness=["E01.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E02": dict(harness=["E02.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E03": dict(harness=["E03.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E04": dict(harness=["E04.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E05": dict(harness=["E05.cpp", "sched.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E06": dict(harness=["E06.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E07": dict(harness=["E07.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E08": dict(harness=["E08.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E09": dict(harness=["E09.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E10": dict(harness=["E10.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E11": dict(harness=["E11.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E13": dict(harness=["E13.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "E14": dict(harness=["E14.cpp", "envmodel.cpp"], repo=["@core"], libs=BOOST, level=LV),
    "M01": dict(harness=["M01.cpp", "envmodel.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "M02": dict(harness=["M02.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "M03": dict(harness=["M03.cpp", "envmodel.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/ElevationGrid.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "M04": dict(harness=["M04.cpp", "envmodel.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/MLSGrid.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "M06": dict(harness=["M06.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/MLSGrid.cpp", "maps/MLSMap.cpp", "operators/MergeMLS.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "M07": dict(harness=["M07.cpp", "envmodel.cpp"], repo=["@core", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "maps/Featurecloud.cpp", "maps/LaserScan.cpp", "tools/PlyFile.cpp"], libs=BOOST, level=LV),
    "M05": dict(harness=["M05.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/MLSGrid.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "M08": dict(harness=["M08.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/ElevationGrid.cpp", "maps/MLSGrid.cpp", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "tools/PlyFile.cpp", "tools/GridAccess.cpp", "tools/BresenhamLine.cpp", "operators/GridIllumination.cpp"], libs=BOOST, level=LV),
    "M09": dict(harness=["M09.cpp", "envmodel.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/TraversabilityGrid.cpp", "operators/TraversabilityGrowClasses.cpp", "tools/BoxLookUpTable.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "M10": dict(harness=["M10.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/ElevationGrid.cpp", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "maps/MapSegment.cpp", "tools/PlyFile.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "O01": dict(harness=["O01.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/ElevationGrid.cpp", "maps/MLSGrid.cpp", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "tools/PlyFile.cpp", "tools/BresenhamLine.cpp", "operators/GridFloatToMLS.cpp", "operators/MLSToGrid.cpp", "operators/MLSToPointCloud.cpp", "operators/DistanceGridToPointcloud.cpp", "operators/MLSProjection.cpp"], libs=BOOST, level=LV),
    "O02": dict(harness=["O02.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "tools/PlyFile.cpp", "tools/BresenhamLine.cpp", "operators/CutPointcloud.cpp", "operators/MergePointcloud.cpp", "operators/Fold.cpp"], libs=BOOST, level=LV),
    "O03": dict(harness=["O03.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/MLSGrid.cpp", "maps/TraversabilityGrid.cpp", "operators/MLSSlope.cpp", "operators/SimpleTraversability.cpp", "tools/BoxLookUpTable.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "O04": dict(harness=["O04.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/MLSGrid.cpp", "maps/TraversabilityGrid.cpp", "operators/TraversabilityGrassfire.cpp", "tools/BoxLookUpTable.cpp", "tools/BresenhamLine.cpp"], libs=BOOST, level=LV),
    "O05": dict(harness=["O05.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/TraversabilityGrid.cpp", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "maps/LaserScan.cpp", "tools/PlyFile.cpp", "tools/BresenhamLine.cpp", "operators/ScanMeshing.cpp", "operators/ObjectGrowing.cpp"], libs=BOOST, level=LV),
    "O06": dict(harness=["O06.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/ElevationGrid.cpp", "maps/MLSGrid.cpp", "maps/MLSMap.cpp", "maps/TraversabilityGrid.cpp", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "maps/LaserScan.cpp", "tools/PlyFile.cpp", "tools/BresenhamLine.cpp", "tools/BoxLookUpTable.cpp", "operators/GridFloatToMLS.cpp", "operators/MLSToGrid.cpp", "operators/MLSToPointCloud.cpp", "operators/DistanceGridToPointcloud.cpp", "operators/MLSProjection.cpp", "operators/MLSSlope.cpp", "operators/MergeMLS.cpp", "operators/MergePointcloud.cpp", "operators/CutPointcloud.cpp", "operators/GridIllumination.cpp", "operators/Fold.cpp", "operators/TraversabilityGrassfire.cpp", "operators/TraversabilityGrowClasses.cpp", "operators/SimpleTraversability.cpp", "operators/ScanMeshing.cpp", "operators/ObjectGrowing.cpp"], libs=BOOST, level=LV),
    "C01": dict(harness=["C01tools.cpp", "C01.cpp"], o0=["C01tools.cpp"], flags=["-I{GEN}", "-I{REPO}"], programs=["env_create.cpp", "env_create_grid.cpp", "env_add_grid.cpp", "env_delete_item.cpp", "env_grid_add_noise.cpp", "env_grid_illumination.cpp", "env_grid_to_mls.cpp", "env_mls.cpp", "env_mls_slopes.cpp", "env_mls_to_grid.cpp", "env_mls_to_pointcloud.cpp", "env_mls_trajectory.cpp", "env_slam6d.cpp", "env_traversability.cpp", "env_update.cpp", "env_info.cpp", "asc2ply.cpp"], repo=["@core", "maps/GridBase.cpp", "maps/Grids.cpp", "maps/ElevationGrid.cpp", "maps/MLSGrid.cpp", "maps/TraversabilityGrid.cpp", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "tools/PlyFile.cpp", "tools/BresenhamLine.cpp", "tools/BoxLookUpTable.cpp", "operators/GridFloatToMLS.cpp", "operators/MLSToGrid.cpp", "operators/MLSProjection.cpp", "operators/MLSSlope.cpp", "operators/SimpleTraversability.cpp", "operators/GridIllumination.cpp", "icp/icp.cpp"], libs=BOOST + ["-lboost_program_options"], level=LV),
    "I01": dict(harness=["I01.cpp"], repo=["@core", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "tools/PlyFile.cpp", "icp/icp.cpp"], libs=BOOST, level=LV),
    "I02": dict(harness=["I02.cpp"], repo=["@core", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "tools/PlyFile.cpp", "icp/icp.cpp", "icp/stability.cpp"], libs=BOOST, level=LV),
    "I03": dict(harness=["I03.cpp"], repo=["@core", "maps/Pointcloud.cpp", "maps/TriMesh.cpp", "tools/PlyFile.cpp", "icp/icp.cpp", "icp/icpLocalization.cpp"], libs=BOOST, level=LV),
    "M11": dict(harness=["M11.cpp"], repo=["@core", "maps/PolygonMap.cpp"], libs=BOOST, level=LV),
    "E12": dict(harness=["E12.cpp", "envmodel.cpp"], repo=["@core", "tools/GraphViz.cpp"], libs=BOOST, level=LV),
}
