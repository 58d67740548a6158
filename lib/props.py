# executed by gen_meta.py
NOT_APPLICABLE = []
TECH = {}
NOTE = {}
UT = "The repository's stable tests only run a Gaussian-mixture fitting demo; nothing asserts this behaviour. "
prop("T01", "A list grid holds exactly what was put into each cell, in order",
     "For every history of inserting at the front or back of a cell, erasing through an iterator, shifting the grid, clearing, resizing, copying and assigning, each cell iterates over exactly the elements that were inserted there and not removed, in order. Shifting moves each cell's content by the given offset and discards what leaves the grid; resizing and clearing empty it; copies are complete and independent of the original, also when either is changed or destroyed first.",
     ["histories", "inputs"], "all operation histories (any cells, any erase position, any shift, any copy/assign/destroy order) and any grid shape",
     UT + "The linked list invariants only break after particular multi-step histories (erase after shift, copy then change).",
     ["src/tools/ListGrid.hpp"], [("insertHead/insertTail/erase", "src/tools/ListGrid.hpp: ListGrid"), ("shift of cells with back links", "src/tools/ListGrid.hpp: ListGrid::move"), ("deep copy", "src/tools/ListGrid.hpp: operator=")])
prop("T02", "The box distance table bounds the distance to a box everywhere in its margin",
     "For every box size, resolution and margin, looking up any point inside the margin around the box returns its distance to the box, exact up to the size of one table cell and zero well inside the box, and any point more than one cell outside the margin is rejected with an error, as is any lookup before the table was computed. Recomputing with other parameters makes the table valid for the new parameters.",
     ["inputs", "configurations", "histories"], "all parameter combinations, all lookup points, all sequences of recomputations",
     UT + "Boundary cells depend on the fractional phase of size, margin and resolution.",
     ["src/tools/BoxLookUpTable.cpp", "src/tools/BoxLookUpTable.hpp"], [("table layout and sampling", "src/tools/BoxLookUpTable.cpp: recompute, computeDistances"), ("bounds check", "src/tools/BoxLookUpTable.cpp: getDistanceToBox")])
prop("T03", "The radial table gives exact polar coordinates for every offset in its radius",
     "For every resolution and radius, the distance and angle returned for any integer cell offset whose components lie within the radius equal the metric distance and the angle of that offset. After recomputation with different parameters the table answers for the new parameters.",
     ["inputs", "configurations", "histories"], "all offsets for all resolutions and radii, all sequences of recomputations",
     UT + "Errors sit at the borders of the table or after re-parameterisation.",
     ["src/tools/RadialLookUpTable.cpp", "src/tools/RadialLookUpTable.hpp"], [("table computation", "src/tools/RadialLookUpTable.cpp: computeDistances, computeAngles"), ("offset to index", "src/tools/RadialLookUpTable.cpp: getDistance, getAngle")])
prop("T04", "Line rasterisation connects its end points without gaps",
     "Rasterising the line between any two cells yields a sequence that starts at the first and ends at the last cell, moves to one of the eight neighbours in every step, makes exactly as many steps as the larger coordinate distance, stays within half a cell of the ideal line and then reports its end. All access forms and a reused rasteriser produce the same cells.",
     ["inputs", "histories"], "all pairs of cells, all points of re-initialisation",
     UT + "Octant and tie cases are only reached by particular direction vectors.",
     ["src/tools/BresenhamLine.cpp", "src/tools/BresenhamLine.hpp"], [("error accumulation", "src/tools/BresenhamLine.cpp: getNextPoint, init")])
prop("T05", "Gaussians, mixtures and sample statistics are normalised and exact",
     "A Gaussian evaluates to its normal probability density, a mixture to the weighted sum of its components, and normalising a mixture makes its weights sum to one without changing their ratios. Weighted sample statistics yield the exact weighted mean and covariance, and samples drawn from a mixture are distributed according to its weights, means and covariances.",
     ["inputs"], "all means, covariances, weights, evaluation points and sample sets",
     UT + "The smoke test never compares a density with its analytic value.",
     ["src/tools/GaussianMixture.hpp", "src/tools/ExpectationMaximization.hpp"], [("density", "src/tools/GaussianMixture.hpp: Gaussian::eval"), ("weights", "src/tools/GaussianMixture.hpp: GaussianMixture::normalize, eval"), ("statistics", "src/tools/GaussianMixture.hpp: Gaussian::Stats"), ("sampling", "src/tools/ExpectationMaximization.hpp: GaussianMixtureSampling::sample")])
prop("T06", "Clustering and mixture fitting terminate at a consistent solution",
     "For every sample set, weighting and class count, clustering terminates with every sample in a cluster whose centre is nearest to it and clusters that are the weighted mean and covariance of their samples, namely those reached from initial centres spread evenly over the sample sequence, independent of earlier use of the object. A fitting step keeps the weights normalised, preserves the weighted mean and second moment of the samples, never decreases the likelihood and drops exactly the components no sample supports, and a fitting run stops as soon as the change falls below the threshold or the iteration limit is reached.",
     ["inputs", "histories"], "all sample sets with duplicates and weights, all class counts, all starting mixtures, re-use of objects",
     UT + "The smoke test runs one random data set and asserts nothing about the result.",
     ["src/tools/ExpectationMaximization.hpp", "src/tools/GaussianMixture.hpp"], [("k-means", "src/tools/ExpectationMaximization.hpp: KMeans"), ("EM step", "src/tools/ExpectationMaximization.hpp: ExpectationMaximization::step"), ("convergence loop", "src/tools/ExpectationMaximization.hpp: ExpectationMaximization::run")])
prop("T07", "Fusing scalar measurements weights them by their certainty",
     "Fusing a measurement into an estimate yields the inverse-variance weighted mean and the combined standard deviation, so that the result lies between both values, is never less certain than either and does not depend on the order of the measurements. Exact (zero deviation) values dominate inexact ones and two exact values average, without ever producing an undefined number.",
     ["inputs", "histories"], "all values and deviations including zero, all orders of measurements, single and double precision",
     UT + "The degenerate cases need specific inputs.",
     ["src/tools/Numeric.hpp"], [("scalar Kalman update", "src/tools/Numeric.hpp: kalman_update")])
prop("E01", "Items are owned, identified and destroyed exactly once",
     "An attached item is owned by exactly one environment under a unique id, attaching it elsewhere moves it there, detaching hands it back, and it is destroyed exactly when neither an environment nor a user reference holds it any more, in any order of releases and environment destructions. Ids follow the requested text and the environment prefix; numbered ids are always unique, an id that is already in use is rejected with an error and no effect, and the id of an attached item cannot change. Lookups by id, by type and by both return exactly the attached items.",
     ["histories"], "all histories of create, attach, move, detach, release, prefix changes and destruction over several items and environments",
     UT + "Ownership errors (double free, leak, dangling) need particular orders.",
     ["src/core/Environment.cpp", "src/core/Environment.hpp", "src/core/EnvironmentItem.hpp"], [("id assignment and attach", "src/core/Environment.cpp: Environment::attachItem"), ("detach", "src/core/Environment.cpp: Environment::detachItem"), ("reference counting", "src/core/Environment.cpp: intrusive_ptr_release"), ("lookups", "src/core/Environment.hpp: getItem, getItems")])
prop("E02", "Structural queries reflect exactly the relations that were established",
     "After any history of structural operations, the queries for frame parents and children, map frames, layer parents and children, operator inputs, outputs and generators return exactly the relations that were added and not removed, each once and consistent in both directions. A frame has at most one parent and a map at most one frame (setting a new one replaces the old), layers may have several parents, removing a missing relation has no effect, using an unattached item attaches it, and detaching an item ends all its relations and no others (deeply: also detaches the frames and maps below it).",
     ["histories"], "all operation histories over a small set of frames, maps, layers and operators",
     UT + "Stale or duplicated relations only surface after particular multi-step histories.",
     ["src/core/Environment.cpp", "src/core/FrameNode.cpp", "src/core/Layer.cpp", "src/core/Operator.cpp"], [("relation tables", "src/core/Environment.cpp: addChild, removeChild, setFrameNode, detachFrameNode, addInput, addOutput"), ("link removal", "src/core/Environment.cpp: detachItem, findMapItem")])
prop("E03", "Event handlers always know the exact structure of the environment",
     "A handler registered at any moment is told the complete current content and afterwards every change exactly once, in an order in which relations only ever refer to announced items, so that the announced items and relations equal the environment's at all times; operations without effect announce nothing and a modification of an attached item announces exactly one update for it. Removing the handler, or destroying the environment, announces the end of everything it was told, and afterwards it receives nothing; filters pass exactly the events they accept and handlers do not affect each other.",
     ["histories"], "all operation histories with handlers registered and removed at any point",
     UT + "The mirror of a listener goes wrong only for particular structures at the moment of registration or removal.",
     ["src/core/Environment.cpp", "src/core/EventHandler.cpp", "src/core/EventSource.cpp", "src/core/Event.cpp"], [("publishing", "src/core/Environment.cpp: addEventHandler, removeEventHandler, publishChilds, detachChilds"), ("dispatch", "src/core/EventHandler.cpp: EventDispatcher::dispatch, EventHandler::receive")])
prop("E04", "Replicas converge to the source environment",
     "Whenever an environment applies the events pulled from another one, it afterwards contains the same items with the same ids, classes and content and the same frame, map and layer relations, no matter which changes happened between two pulls (including removal and re-creation under the same id and changes while detached), whether only the changes or everything is pulled, how late it joins and whether it is itself the source of a further replica. A pull without intervening changes returns nothing.",
     ["histories"], "all histories of structural and content changes interleaved with pulls, for replicas joining at any point and chained replicas",
     UT + "Event merging between two pulls only loses information for particular sequences.",
     ["src/core/Event.cpp", "src/core/EventHandler.cpp", "src/core/Serialization.cpp", "src/core/Environment.cpp"], [("event merging", "src/core/Event.cpp: Event::merge; src/core/EventHandler.cpp: EventQueue::handle"), ("apply", "src/core/Event.cpp: ApplyEventHelper"), ("pull", "src/core/Environment.cpp: pullEvents")])
prop("E05", "Queued event delivery loses, tears and reorders nothing, also between two threads",
     "When one thread changes an environment while another one applies the queued changes to a replica at times of its own choosing, then in every schedule the replica never holds content that was never announced, a flush after the last change makes it equal to the source, a flush of an empty queue does nothing and no data is accessed after it was released. The same holds for queued and immediate delivery within one thread, for switching between them, and for context updates, with which the events of a map alone are sufficient to place it in the replica.",
     ["schedules", "histories"], "all interleavings of the changing and the flushing thread up to the preemption bound, all histories of changes, flushes and mode switches",
     UT + "Races and lost updates need a particular interleaving of producer and consumer.",
     ["src/core/EventHandler.cpp", "src/core/EventHandler.hpp", "src/core/Serialization.cpp", "src/core/Event.cpp"], [("queue and its lock", "src/core/EventHandler.cpp: EventQueue::handle, flush"), ("copies for other threads", "src/core/Event.cpp: Event::ref"), ("binary delivery", "src/core/Serialization.cpp: SynchronizationEventHandler")])
prop("E06", "Saving an environment and loading it again reproduces it completely",
     "For every environment, saving it to a directory and loading that directory yields an environment with the same items, ids, labels, classes, content (bit-exact transforms, covariances and map data) and the same frame, map, layer and operator relations; saving does not change the original and may overwrite an older scene. The loaded environment can be changed, saved and loaded again, and goes on assigning unique ids. Loading a scene that does not exist is reported as an error.",
     ["histories", "inputs"], "all histories of changes with save and reload at any point, all structures, ids, labels, values and binary contents of the alphabets",
     UT + "Data loss on disk depends on particular structures, texts and values and on later use of the loaded environment.",
     ["src/core/Serialization.cpp", "src/core/Environment.cpp", "src/core/FrameNode.cpp"], [("writer", "src/core/Serialization.cpp: FileSerialization::serialize"), ("reader", "src/core/Serialization.cpp: FileSerialization::unserialize, yaml helpers"), ("id counter", "src/core/Environment.cpp: Environment::unserialize")])
prop("E07", "Every item survives its binary event form, for any text and any amount of data",
     "Packing an item into a binary event and unpacking it yields an item of the same class with the same id, label, properties and data streams, whatever the number, length and content of its texts and streams and whatever was packed or unpacked before; applying such an event updates the existing item in place. Damaged events and unknown class names are reported as errors without side effects, a class is found by its full and by its unqualified name, and values stored under a key are returned unchanged in their type, with the given default when the key is missing.",
     ["inputs", "histories"], "all combinations of texts, sizes and streams of the alphabets, all sequences of packings, all damages of the alphabet",
     UT + "Truncation and leakage between items depend on sizes and order.",
     ["src/core/Serialization.cpp", "src/core/SerializationFactory.cpp", "src/core/Serialization.hpp"], [("binary form", "src/core/Serialization.cpp: BinarySerialization"), ("class registry", "src/core/SerializationFactory.cpp: SerializationFactory")])
prop("E08", "Coordinates between any two frames follow the tree of transforms",
     "For every frame tree, the transform between two connected frames is the product of the transforms along the path between them, independent of where they lie and kept correct by pose changes and re-parenting; unconnected frames have no relative transform and asking for it is an error. Points and bounding boxes converted between a map and any frame agree with that transform (boxes enclose exactly the transformed corners), and cloning a map into another environment keeps its content and its pose relative to the root.",
     ["inputs", "histories"], "all forests up to the bound with all poses of an alphabet, all pairs of frames and maps, all histories of pose and parent changes",
     UT + "Mixed-up directions cancel out in symmetric or identity configurations.",
     ["src/core/Environment.cpp", "src/core/FrameNode.cpp", "src/core/Layer.cpp", "src/core/Layer.hpp"], [("relative transforms", "src/core/Environment.cpp: relativeTransform; src/core/FrameNode.cpp: relativeTransform"), ("map coordinates", "src/core/Layer.cpp: CartesianMap::toMap, fromMap; src/core/Layer.hpp: Map::getExtentsTransformed"), ("cloning", "src/core/Layer.cpp: CartesianMap::cloneTo")])
prop("E09", "Uncertainty follows from the transforms it belongs to",
     "The covariance of composed, inverted and inversely composed transforms, of points moved by them and of the relative transform between two frames is the first-order propagation of the covariances involved, each frame between the two contributing and no other; certain transforms stay certain. Inverting twice restores the covariance, inverse composition recovers the covariance of the removed part, and poses with covariance are converted without change in both directions.",
     ["inputs"], "all combinations of poses (rotations up to 0.6 rad), covariances and points of the alphabets, all frame trees up to the bound",
     UT + "Wrong Jacobian signs are invisible for identity or single-axis rotations.",
     ["src/core/Transform.cpp", "src/core/Transform.hpp", "src/core/Environment.cpp"], [("Jacobians", "src/core/Transform.cpp: r_to_q, drx_by_dr, dr2r1_by_r1/r2"), ("composition", "src/core/Transform.cpp: composition, compositionInv, preCompositionInv, inverse"), ("frame chains", "src/core/Environment.cpp: relativeTransformWithUncertainty")])
prop("E10", "Metadata of a layer is typed, owned by it and copied deeply",
     "For every history of storing, changing, removing, copying, assigning and destroying, a layer returns under each key exactly the value stored last, in exactly the type it was stored with; asking for a missing key or another type is an error that changes nothing, and newly created metadata is default constructed. Copies, clones and assigned layers have independent metadata and the same flags, and every metadata object is destroyed exactly once.",
     ["histories"], "all histories over two layers, two keys and four types up to the bound",
     UT + "Sharing and double destruction need copy and change sequences.",
     ["src/core/Layer.cpp", "src/core/Layer.hpp", "src/core/Holder.hpp"], [("typed storage", "src/core/Holder.hpp: HolderBase, Holder"), ("access and copy", "src/core/Layer.hpp: Layer::getData, hasData; src/core/Layer.cpp: Layer copy/assignment, removeData")])
prop("E11", "Operators respect their arity and updates reach exactly the right layers",
     "After every history of connecting, replacing and disconnecting, an operator has exactly the inputs and outputs it was given, never more than its arity allows (a further one is rejected with an error), typed access returns the only layer of that type or an error, a layer is generated exactly while it is the output of an operator, and the layers generated from a layer are the outputs of the operators it feeds. Updating a generated dirty layer runs its generator once and cleans it, a clean or not generated one runs nothing, and updating all operators runs each once and announces each of their outputs as modified.",
     ["histories"], "all histories over two operators and three layers for several arities",
     UT + "Stale connections need particular orders of replacement and removal.",
     ["src/core/Operator.cpp", "src/core/Operator.hpp", "src/core/Layer.cpp", "src/core/Environment.cpp"], [("arity", "src/core/Operator.cpp: addInput, addOutput, setInput, setOutput"), ("generation", "src/core/Layer.cpp: isGenerated, detachFromOperator, updateFromOperator; src/core/Environment.cpp: updateOperators, getLayersGeneratedFrom")])
prop("E12", "The graph written for an environment contains each item and relation exactly once",
     "For every environment, with whatever ids, labels and classes its items have, the graph written is valid in the dot language and has exactly one node for each item, labelled with its class, its id and its label - frames as ellipses with their position, layers as boxes, operators as octagons - and exactly one edge for each relation of frames (child to parent), layers (parent to child), maps (frame to map), and inputs and outputs of operators (along the flow of data), and nothing else, after every history of adding and removing relations and items.",
     ["inputs", "histories"], "all pairs of items of all kinds with ids and labels from an alphabet with special characters; all histories of relations over two frames, maps, layers and operators",
     UT + "Ids that only differ in special characters and items of other kinds are never written by tests.",
     ["src/tools/GraphViz.cpp"], [("nodes and edges", "src/tools/GraphViz.cpp: writeToFile, dot_id")])
prop("C01", "The command line tools change a stored environment as their usage says and leave the rest alone",
     "For every valid form of its arguments - with and without the optional ones - each tool (creating environments and grids, adding grids from files, deleting items, converting between grids, surfaces and point clouds, slopes, traversability, illumination, noise, projection to surfaces, updating, exchange with slam6d, conversion of text to ply) stores exactly the environment described: the new items with the class, geometry, bands, frame, contents and connections asked for, and every other item unchanged; the id printed is that of the new item. Invalid arguments, unknown types, ids and files are refused and leave the stored environment as it was. Sequences of tools work on each other's results.",
     ["inputs", "histories"], "all forms of the arguments of each tool with values from an alphabet, with arguments missing; all sequences of up to n conversions",
     UT + "The tools have no tests; optional arguments that are missing or combined are particular inputs.",
     ["tools/env_create.cpp", "tools/env_create_grid.cpp", "tools/env_add_grid.cpp", "tools/env_delete_item.cpp", "tools/env_grid_add_noise.cpp", "tools/env_grid_illumination.cpp", "tools/env_grid_to_mls.cpp", "tools/env_mls.cpp", "tools/env_mls_slopes.cpp", "tools/env_mls_to_grid.cpp", "tools/env_mls_to_pointcloud.cpp", "tools/env_mls_trajectory.cpp", "tools/env_slam6d.cpp", "tools/env_traversability.cpp", "tools/env_update.cpp", "tools/asc2ply.cpp"], [("grids", "tools/env_create_grid.cpp, env_add_grid.cpp"), ("operators", "tools/env_grid_to_mls.cpp, env_mls_to_grid.cpp, env_mls_slopes.cpp, env_traversability.cpp, env_grid_illumination.cpp, env_update.cpp, env_mls.cpp"), ("exchange", "tools/env_slam6d.cpp, asc2ply.cpp, env_mls_to_pointcloud.cpp, env_mls_trajectory.cpp")])
prop("E13", "Damaged scenes and events are refused or applied consistently",
     "Whatever happened to the files of a stored environment - cut off at any place, lines or entries lost, repeated or exchanged, keys and values replaced, binary files missing or cut off - loading it either fails with an exception, leaving nothing behind, or yields an environment whose items and relations are consistent in all directions, with a root node, frames that are not their own ancestors and each relation once, and which can be saved and loaded again with the same result, extended and taken apart. A binary event with damaged ids, type, class, data or streams is either refused with an exception, leaving the environment as it was and all correct events applicable afterwards, or applied to a consistent environment; so are events that are lost, repeated or received in another order. Memory outside of the data is never accessed, no item is leaked, and intact scenes load as before.",
     ["inputs", "faults", "histories"], "scenes of all kinds of items and relations: all cuts, all lines, entries, keys, values and bytes replaced; all fields and cuts of the events of a history; all single losses, repetitions and moves of events",
     UT + "Crashes and inconsistent relations depend on which byte, line or event is damaged.",
     ["src/core/Serialization.cpp", "src/core/Event.cpp", "src/core/SerializationFactory.cpp", "src/core/Environment.cpp"], [("scenes", "src/core/Serialization.cpp: FileSerialization::readFromFile, Serialization::read"), ("events", "src/core/Serialization.cpp: BinarySerialization::applyEvent, unserializeBinaryEvent; src/core/Event.cpp: Event::apply")])
prop("E14", "Saving an environment writes all of it or reports that it could not",
     "Saving an environment to a folder reports success exactly if every file of the scene was written completely: if files cannot be created or cannot hold all of their data - whichever of them, from whichever byte on, because of a limit, a full disk or something else in their place - or if an item fails to store itself, saving fails with an exception. Whatever happened, the environment itself is unchanged, no file is left open, and saving again once there is room writes the same files as if nothing had happened, from which an equal environment is loaded.",
     ["inputs", "faults", "histories"], "every limit of the length of files up to 4096 bytes and around the buffers of files, every set of files on a full disk, each file that cannot be created, all sequences of limits",
     UT + "Data is lost only if the disk is full at particular bytes of particular files, and only noticed when loading.",
     ["src/core/Serialization.cpp", "src/core/Serialization.hpp", "src/core/Environment.cpp"], [("saving", "src/core/Serialization.cpp: FileSerialization::writeToFile, getBinaryOutputStream, Serialization::serialize")])
TECH["E05"] = "stateless model checking of the real code under a controlled scheduler (pthread mutex interposition): all interleavings up to a preemption bound, plus all operation histories"
prop("M01", "Grid cells and metric positions correspond in both directions",
     "For every grid (size, cell scale, offset, frame), exactly the positions inside of a cell convert to that cell, with the right offset within it, and every other position - close to the border, arbitrarily far away, infinite or undefined - is rejected; a cell converts to its centre; both directions also hold in the coordinates of any other frame. Value access by position and by index agree and access outside is an error; extents, sizes and centre are those of the cells. Two grids are aligned exactly if they have the same dimensions and lie less than half a cell apart everywhere, and aligned on cell level exactly if they have the same scale and their cells coincide.",
     ["inputs", "configurations"], "all grids of the alphabet in all frames, all cells and positions in, around and far outside, all pairs of shifted and rotated grids",
     UT + "Rounding at cell borders, far positions and rotated frames are particular inputs.",
     ["src/maps/GridBase.cpp", "src/maps/GridBase.hpp", "src/maps/Grid.hpp"], [("conversion", "src/maps/GridBase.cpp: toGrid, fromGrid, contains"), ("extents", "src/maps/GridBase.cpp: getExtents, getCellExtents"), ("alignment", "src/maps/GridBase.cpp: isAlignedWith, isCellAlignedWith")])
prop("M02", "Iterating over rectangles in a grid visits each covered cell exactly once",
     "For every oriented rectangle inside of a grid, iterating over it visits every cell it covers exactly once and no cell that is farther away than the sampling accuracy; with two nested rectangles each cell is visited once and as inner cell exactly if the inner rectangle covers it. A rectangle that reaches out of the grid is rejected without visiting anything.",
     ["inputs"], "all positions, orientations and sizes of the alphabet on grids of several scales (accuracy 0.3 cells at the border)",
     UT + "The edge walk only fails for particular angles and sizes.",
     ["src/maps/GridBase.cpp", "src/tools/BresenhamLine.cpp"], [("edge walk", "src/maps/GridBase.cpp: forEachInRectangle, forEachInRectangles"), ("corners", "src/maps/GridBase.cpp: getRectPoints, toGridTimesX")])
prop("M03", "Band data of grids is exact in memory, copies, files and events",
     "Every band of a grid is an independent raster of the grid's size that holds exactly what was written, starts out undefined or with the no-data value, and exists exactly after it was created. Minimum and maximum are those of the defined cells. Copies and assignments are deep, and saving, loading and sending a grid or a band to a file or as an event keeps every value, the no-data value, the geometry and the position; files with flipped axes or other pixel types are read to the same positions or rejected. Grids are created by their class name.",
     ["histories", "inputs"], "all histories of band operations, copies, saving and sending on two grids of every type; all sizes, axis directions and band counts of files in the alphabet",
     UT + "Aliasing, lost attributes and transposed rasters only show for particular histories, band orders and non-square sizes.",
     ["src/maps/Grid.hpp", "src/maps/Grids.cpp", "src/maps/GridBase.cpp", "src/maps/ElevationGrid.cpp"], [("bands", "src/maps/Grid.hpp: getGridData, hasBand, copyBandFrom"), ("files", "src/maps/Grid.hpp: readGridData, writeGridData, readGridFromGdal"), ("event form", "src/maps/Grid.hpp: Grid::serialize, unserialize"), ("extrema", "src/maps/Grid.hpp: getMinMaxValues")])
prop("M04", "A multi-level surface grid keeps every patch with its cell, through shifts, copies, files and events",
     "After any history of insertions, erasures, shifts, clearing, copies and assignments each cell of a multi-level surface grid lists exactly its patches, unchanged and in order, the reported patch count is right, and the reported extents and the cell index cover every occupied cell and only cells used since they were last cleared. Saving and loading, sending as event and copying keep all patches with all their attributes, the geometry and the configuration; older stream versions are read with the meaning they had, and streams with a wrong header are rejected.",
     ["histories"], "all histories of operations on two grids, with and without index, all stream versions",
     UT + "Index and count errors show only after shift, erase and assignment in particular orders.",
     ["src/maps/MLSGrid.cpp", "src/maps/MLSGrid.hpp", "src/maps/MLSPatch.hpp", "src/tools/ListGrid.hpp"], [("cells and index", "src/maps/MLSGrid.cpp: insertHead, insertTail, erase, move, clear, initIndex"), ("copy", "src/maps/MLSGrid.cpp: operator=, set, cloneShallow"), ("streams", "src/maps/MLSGrid.cpp: serialize, unserialize, writeMap, readMap")])
prop("M05", "Measurements of a cell are merged by their height according to the update model",
     "A measurement added to a cell of a multi-level surface grid is fused with the patches it touches within gap size, thickness and uncertainty, extends vertical patches, bridges patches that it connects and otherwise becomes a patch of its own; other cells do not change and updates outside of the grid are refused. Projecting grid positions and curves follows, from cell to cell, the occupied surface whose top is nearest to the height followed so far; curves are sampled at a quarter of the cell size. Occupied and free space that contradict each other are resolved in favour of the newer one, which never changes space outside of the conflict. Under the sum and slope models the patch represents exactly the mean, spread, extent and plane of its measurements in any order. Look-ups by height return the matching patches.",
     ["histories", "inputs"], "all sequences of surface and vertical measurements from a 12 letter alphabet, under both configurations and all update models; all conflicts of two intervals",
     UT + "Cases are selected by the exact relation of heights, gaps and ages of several measurements.",
     ["src/maps/MLSGrid.cpp", "src/maps/MLSPatch.hpp", "src/tools/Numeric.hpp"], [("cell update", "src/maps/MLSGrid.cpp: updateCell, get"), ("patch merging", "src/maps/MLSPatch.hpp: SurfacePatch::merge, mergeMLS, mergeSum, mergePlane"), ("conflicts", "src/maps/MLSPatch.hpp: overlap and removal of conflicting space")])
prop("M06", "Merging surface grids and looking up in maps of them uses every patch where it really lies",
     "Merging one multi-level surface grid into another places every patch in the cell and at the height that its position has in the target frame, with its spread enlarged by the given uncertainty and its colour kept, changes no other cell, and is the same whether done by explicit transform, by offset, or by the merge operator from grids or maps, which reports the change of its output and refuses to run without one; matching reports the share of cells whose patches agree in height under the same transform. A map of grids lists exactly the grids that are its children with at most one active, reports extents that enclose all of them, finds the patch nearest to a position in whichever grid contains it after grids moved, were added or removed, creates and selects grids at the right place and orientation, and its copies own copies of all grids in the same relative placement.",
     ["histories", "inputs"], "all placements and offsets of two small grids over an alphabet; all histories of creating, selecting, moving, removing and looking up in a map of grids",
     UT + "Errors show only for particular offsets between the frames and after particular histories of a map.",
     ["src/maps/MLSGrid.cpp", "src/maps/MLSMap.cpp", "src/operators/MergeMLS.cpp"], [("merge and match", "src/maps/MLSGrid.cpp: merge, match"), ("grid look-up and cache", "src/maps/MLSMap.cpp: getPatch"), ("active grid", "src/maps/MLSMap.cpp: createGrid, selectActiveGrid, cloneDeep"), ("merge operator", "src/operators/MergeMLS.cpp: updateAll")])
prop("M07", "Point clouds, meshes and laser scans keep their content through copies, frames, files and events",
     "Copies of point clouds, meshes, feature clouds and laser scans have the same points, normals, colours, faces and readings and do not change with the original; copying into another frame yields the same points and normals as seen from there. Extents enclose exactly all points. Normals computed for a mesh are those of its faces and the combination of the adjacent faces at its vertices. Whatever is written to environment files, events or text comes back equal (colours to one part in 255, text to its stated format), for empty objects and objects without optional data as well, and malformed or truncated input ends with an error instead of made up values or an endless loop.",
     ["inputs", "histories"], "all small clouds, meshes and scans over an alphabet of values and optional data, all combinations of input variants, truncation points",
     UT + "Missing optional data, empty objects and rounding show only with particular content.",
     ["src/maps/Pointcloud.cpp", "src/maps/TriMesh.cpp", "src/maps/LaserScan.cpp", "src/maps/Featurecloud.cpp"], [("copy and extents", "src/maps/Pointcloud.cpp: copyFrom, getExtents"), ("ply and text form", "src/maps/Pointcloud.cpp: serialize, writeText, readText"), ("vertex normals", "src/maps/TriMesh.cpp: calcVertexNormals"), ("scan parsing", "src/maps/LaserScan.cpp: parseScan, serialize")])
prop("M09", "Traversability grids keep classes and probabilities, and summarise rectangles and grow classes correctly",
     "Each cell of a traversability grid has the class and, to half a step of 1/255, the probability last written; classes keep their drivability, undefined ones stay undefined and newly registered ones never replace others. Copies, assignments, files and events keep all of it and copies are independent of the original. The statistics of an oriented rectangle and its border count exactly the covered cells per class with the smallest distance of each class to the centre or the rectangle, and the worst class and probability are the minima over these cells. Growing classes gives every cell the worst class known within the radius and leaves other unknown cells unknown.",
     ["histories", "inputs"], "all histories of class, cell and copy operations on two grids; all positions, angles, sizes and borders of rectangles on a lattice; all assignments of classes to small grids with all radii",
     UT + "Stale cached arrays, class ids at the limits and look-ups at the border show only for particular histories, classes and rectangles.",
     ["src/maps/TraversabilityGrid.cpp", "src/maps/TraversabilityGrid.hpp", "src/operators/TraversabilityGrowClasses.cpp"], [("cached arrays", "src/maps/TraversabilityGrid.cpp: setTraversabilityArray, operator="), ("statistics", "src/maps/TraversabilityGrid.cpp: computeStatistic, getWorstTraversabilityClassInRectangle"), ("growth", "src/operators/TraversabilityGrowClasses.cpp: growTerrains")])
prop("O01", "Conversions between grids, surface grids, distance images and point clouds put every value at its place",
     "Converting an elevation grid to a multi-level surface grid, a surface grid to an elevation grid or point cloud, a distance image to a point cloud, a point cloud to a surface grid, and a class grid to another one gives every cell or point exactly the value that its source has at that position in space, whatever frames, scales and offsets the maps have: unknown values and values outside of the target or the chosen area are left out, heights, spreads, normals and colours are carried over with the uncertainty of the connecting transforms, free space marks exactly the cells between sensor and point, sources stay unchanged, mismatching outputs are refused and changes of the output are reported.",
     ["inputs"], "all placements of the maps in three frames, all contents of small grids and clouds over an alphabet of values, all combinations of optional data",
     UT + "Mirrored or shifted look-ups and ignored frames show only for maps in different frames with asymmetric content.",
     ["src/operators/GridFloatToMLS.cpp", "src/operators/MLSToGrid.cpp", "src/operators/MLSToPointCloud.cpp", "src/operators/DistanceGridToPointcloud.cpp", "src/operators/MLSProjection.cpp", "src/operators/ClassGridProjection.hpp"], [("grid to surfaces", "src/operators/GridFloatToMLS.cpp: updateAll"), ("surfaces to grid and cloud", "src/operators/MLSToGrid.cpp, src/operators/MLSToPointCloud.cpp: updateAll"), ("distance image", "src/operators/DistanceGridToPointcloud.cpp: updateAll"), ("projection and free space", "src/operators/MLSProjection.cpp: projectPointcloudWithUncertainty, updateAll")])
prop("O02", "Cutting, merging and folding keep each value together with its point or cell",
     "Cutting a point cloud keeps exactly the points that lie outside of all excluding and inside of all including boxes (borders belong to the box), each with its own normal, colour, attribute and variance, in the original order and moved into the frame of the output. Merging point clouds yields the former points of the target if it is not to be cleared, followed by all points of the inputs as seen from the target's frame, every one with its own normal and colour; clouds of which only some have normals or colours are refused without changing anything. The folding operator gives each cell the average of exactly the cells of the input that lie in the window around it. Missing, surplus or mismatching inputs and outputs are refused, sources stay unchanged, and changes of the output are reported.",
     ["inputs"], "all small clouds with all combinations of boxes, optional data and three frames, repeated after changes; all combinations of small clouds and target contents; all grid sizes and windows",
     UT + "Attributes only get out of step with their points for particular patterns of removed points and optional data.",
     ["src/operators/CutPointcloud.cpp", "src/operators/MergePointcloud.cpp", "src/operators/Fold.cpp"], [("cut", "src/operators/CutPointcloud.cpp: updateAll"), ("merge", "src/operators/MergePointcloud.cpp: updateAll"), ("fold", "src/operators/Fold.cpp, src/operators/Fold.hpp")])
prop("O03", "Slopes, steps and traversability classes follow from the surfaces around each cell",
     "For every inner cell of a surface grid whose top surface has enough measurements and enough neighbours, the reported slope is that of the plane fitted to the surfaces in the window, the step the largest height difference to an adjacent surface (with the deviations added on request) and the corrected step never exceeds it; all other cells are unknown, and free space is never taken for a surface. Classification makes a cell an obstacle exactly if its slope or step exceeds the limit, otherwise gives it the class proportional to its slope, and leaves cells with unknown slope unknown with probability zero, whatever former updates left behind. Passages between obstacles narrower than the given width are closed and nothing away from them is, the clearance makes exactly the cells within it obstacles, settings survive saving, mismatching grids are refused and changes are reported.",
     ["inputs", "configurations"], "all 3x3 terrains over three surfaces, all special cells in larger terrain under all options; all slopes and steps with all configurations and input combinations; all obstacle patterns of small grids with all widths",
     UT + "Border cells, missing neighbours, unknown values and narrow passages need particular patterns of cells.",
     ["src/operators/MLSSlope.cpp", "src/operators/SimpleTraversability.cpp"], [("slope and step", "src/operators/MLSSlope.cpp: updateAll, updateGradient"), ("classes", "src/operators/SimpleTraversability.cpp: updateAll"), ("passages and clearance", "src/operators/SimpleTraversability.cpp: closeNarrowPassages, growObstacles")])
prop("O04", "The drivable area found from a start position is exactly what can be reached, with classes from the surfaces reached",
     "Starting from the surface nearest to the start position, in whatever frame the map is, the surfaces taken for the ground are exactly those that can be reached cell by cell without stepping up higher than the step limit and without passing gaps lower than the robot; surfaces that block the way are obstacles from which the search does not go on, free space and outliers are ignored, and everything else stays unknown with probability zero. Each reached cell becomes an obstacle exactly if a neighbouring reached surface differs by more than the step limit or the plane through them is too steep, is unknown if too few neighbours were reached and otherwise has the class proportional to its slope; its probability is its share of the nominal measurements. Without a usable start nothing is claimed, the input never changes, mismatching grids are refused and changes are reported.",
     ["inputs", "configurations"], "all 3x3 scenes over alphabets of single and multi-layered cells; pairs of special cells in larger terrain; all starts and frames; all limits",
     UT + "Which surface of a multi-layered cell is met depends on the height from which it is reached and on the order of the search.",
     ["src/operators/TraversabilityGrassfire.cpp"], [("start", "src/operators/TraversabilityGrassfire.cpp: determineDrivePlane"), ("surface selection", "src/operators/TraversabilityGrassfire.cpp: getNearestPatchWhereRobotFits, checkRecursive"), ("classes", "src/operators/TraversabilityGrassfire.cpp: setTraversability, setProbability")])
prop("M08", "Elevations, normals, light and heights along rays come from exactly the cells concerned",
     "An elevation grid reports for each cell and position the elevation of that cell, and the normal of the surface through its neighbours, or that there is none. The cells listed along a ray are exactly those that the ray meets, in the order in which it meets them and without gaps. The light on each cell of a distance image is the share of the light source that is not hidden by higher cells strictly between the cell and the light, for any direction of the light. Access to the height of an environment of several grids, surface grids or point clouds finds the height at a position in whichever map contains it, expressed in the common frame, and reports failure only where no map has a value.",
     ["inputs"], "all rays between the points of a lattice; all small elevation grids over an alphabet; all small scenes of obstacles with all light directions; all placements of up to three maps with all query positions",
     UT + "Rays along an axis or through corners, cells at the border, and queries after a miss need particular inputs.",
     ["src/maps/ElevationGrid.cpp", "src/tools/VoxelTraversal.cpp", "src/tools/GridAccess.cpp", "src/operators/GridIllumination.cpp"], [("elevations and normals", "src/maps/ElevationGrid.cpp: getElevation, getNormal"), ("rays", "src/tools/VoxelTraversal.hpp: VoxelTraversal"), ("light", "src/operators/GridIllumination.cpp: updateAll"), ("access", "src/tools/GridAccess.cpp: GridAccess, MLSAccess, PointcloudAccess")])
prop("M10", "Map segments combine their parts by weight and find the part for a pose",
     "The pose of a map segment is the mean of the poses of its parts in proportion to their weights, and its uncertainty is their spread with the variance of heights added, however many parts are added before and after an update. The best map is one with the largest weight, the map for a pose is that of the nearest part together with the pose and the length of the trajectory of the same part, and a segment without parts reports neither. The extents of a segment enclose exactly all of its maps of any type as seen from its own frame, whatever frames they are in.",
     ["inputs"], "all combinations of poses, weights, variances and trajectories of up to three parts; all placements of up to two maps of any type in three frames",
     UT + "Weights of zero, missing trajectories, rotated frames and two dimensional maps occur only in particular combinations.",
     ["src/maps/MapSegment.cpp"], [("mean and spread", "src/maps/MapSegment.cpp: update"), ("look-up", "src/maps/MapSegment.cpp: getBestMap, getMapForPose"), ("extents", "src/maps/MapSegment.cpp: getExtents")])
prop("M11", "Polygon sets report intersection, containment and distance exactly for every history of moves",
     "For every history of creating, copying, moving and adding polygons and changing the area of the distance calculation, a set of polygons reports that a polygon intersects it exactly if it overlaps one of its polygons, that it lies inside exactly if a single one of its polygons contains all of its corners, and the distance of the nearest of its polygons within the distance calculation area, or none exactly if there is none within it (contacts closer than the skin of 0.03 are free). Using several sets and query polygons alternately does not influence the answers, and copies of polygons, sets and maps of polygons are complete and independent of the original.",
     ["histories", "inputs"], "all histories over two sets and query polygons with copies and moves; all placements of pairs of polygons on a lattice with rotations",
     UT + "Outdated boxes and poses only matter for particular sequences of queries and moves.",
     ["src/maps/PolygonMap.cpp", "src/maps/PolygonMap.hpp"], [("queries", "src/maps/PolygonMap.cpp: isIntersecting, isInside, getMinimalDistance"), ("copies", "src/maps/PolygonMap.cpp, src/maps/PolygonMap.hpp: copies of Polygon, PolygonSet, PolygonMap")])
prop("O05", "Meshing laser scans and growing objects connect and change exactly the values in reach",
     "Meshing a laser scan yields exactly one point per reading within the range limits that does not lie on a jump edge, at the position given by its angles, range and the offset of the scanner, with its variance, border mark and, if all lines have remissions and they are wanted, its colour. Faces connect only points of neighbouring readings whose distances are below the edge limit, at most two per four readings that never overlap, all of those that are possible exist, and all have the same orientation. Lines of any number and different lengths are handled without touching memory beyond them, settings survive saving, and changes are reported. Growing objects gives each cell the largest value in the given order within the radius, never changes the input and refuses an output of another shape.",
     ["inputs", "configurations"], "all readings of two lines of three points under all options; all numbers and lengths of lines, repeated after changes; all settings with and without a file; all assignments of values to small grids with all policies and radii",
     UT + "Missing readings at particular places, lines of different length and partial remissions decide which points are connected.",
     ["src/operators/ScanMeshing.cpp", "src/operators/ObjectGrowing.hpp"], [("meshing", "src/operators/ScanMeshing.cpp: updateAll"), ("growth", "src/operators/ObjectGrowing.hpp: growObjects")])
prop("O06", "Stored operators do what the original does",
     "Every operator that an environment can store keeps its class, unique id, label, its connected layers and the number of layers it accepts when the environment is saved to and loaded from a file or when it is sent as binary events, once or repeatedly. It keeps all of its settings: run on the same inputs, the stored operator reports and computes exactly what the original computes, whatever the settings are and whether or not it has been run before, and storing an operator does not change it. What the caller has to provide for each run (start positions, excluded boxes) is not part of that.",
     ["configurations", "histories"], "all operators with all ids, labels and numbers of layers; for every operator with settings all combinations of values of all of its settings, stored in four ways before and after a run",
     UT + "A setting that is lost in a file only shows with a value other than the default and with inputs on which the setting matters.",
     ["src/operators", "src/core/Operator.cpp", "src/core/Serialization.cpp"], [("settings", "src/operators/*.cpp: serialize, unserialize of every operator"), ("identity", "src/core/Operator.hpp, src/core/EnvironmentItem.hpp: serialize, unserialize"), ("connections", "src/core/Serialization.cpp: FileSerialization")])
prop("I01", "Registering point clouds pairs closest points and moves the cloud by the transforms of least squared error",
     "For any pairs of points, the transform found is a proper rotation and translation that leaves the least mean squared error possible, however the points are rotated, mirrored or disturbed, and fewer than three pairs are refused; adding, trimming and clearing pairs in any order leaves exactly the pairs that belong together, trimming keeps those of least distance. Each sampled point of a cloud is paired with the closest sampled point of the models within the distance limit - for clouds with edges and normals only if neither is an edge and the normals agree - whatever frames and offsets the clouds have. Registration repeats pairing, keeping the best part, and moving until the limit of iterations, error or change of error is reached, reports the pairs, error, distances and iterations of that sequence, and moves only the frame of the cloud registered. The search for the overlap finds the minimum of any function with a single one and leaves the cloud as registered with the overlap reported.",
     ["inputs", "configurations", "histories"], "all lattice rotations and a family of general ones for several point sets, mirrored and disturbed; all assignments of lattice points; all sequences of additions, trims and clears; all small models and clouds with all densities, limits and frames; all end conditions",
     UT + "Half turns, mirrored sets and pairs added after a trim are never met by a converging registration of one recorded cloud.",
     ["icp/icp.cpp", "icp/icp.hpp"], [("transform of pairs", "icp/icp.cpp: Pairs::getTransform, trim, add"), ("pairing", "icp/icp.hpp: FindPairs, PointcloudAdapter, PointcloudEdgeAndNormalAdapter"), ("registration", "icp/icp.hpp: Trimmed::align"), ("overlap search", "icp/icp.hpp: GoldenBracket, Trimmed::align with overlap range")])
prop("I02", "Random sample searches, pose clusters and distance statistics are right for every random choice",
     "For every outcome of the random choices, searching a transform by random samples either fails or yields a transform fitted to three distinct pairs within the error limit together with exactly those pairs it maps closer than the threshold, at least as many as any of the transforms tried; picked indices are always distinct and in range. The mean of a cluster of poses is the mean position and the direction-wise mean heading, its variances are those of the poses kept, and outliers are removed one at a time, farthest from the mean first, until the spread is within the limits or too few are left. Sample offsets at the limits of an uncertainty cover it in all directions at the configured distances, and the distance histogram counts each distance in exactly one bin, values beyond the range in the outer ones.",
     ["inputs", "configurations"], "all outcomes of the random number generator on small sets of pairs with all limits; all sequences of poses from an alphabet with all limits; all covariances; all ascending distances",
     UT + "Results of the random search depend on draws that a test cannot enumerate; headings across the wrap and clusters far from the origin need particular poses.",
     ["icp/ransac.hpp", "icp/stability.cpp", "icp/stability.hpp"], [("random sample search", "icp/ransac.hpp: ransacSingleModel, pickRandomIndex, FitTransform"), ("clusters", "icp/stability.cpp: Clustering::cluster, calcMean, calcVariance, removeOutliers"), ("samples", "icp/stability.hpp: SigmaPoints; icp/stability.cpp: Sampling"), ("histogram", "icp/stability.cpp: Histogram::calculateHistogram")])
prop("I03", "Scan lines are collected, turned into clouds and matched without disturbing the map",
     "A scan line is kept exactly if the body or the scanner head has moved far enough since each of the lines kept, only the configured number of latest lines is kept, and a new cloud is announced once enough lines have been collected and enough of them are new. The cloud of the lines contains every valid reading of each of them at its place as seen from the pose of the latest line, with its time, and samples of it are independent copies at the offset asked for. Matching a cloud with the map yields pose, pairs, error and the configured kind of covariance of the registration, leaves the map as it was, and adds the matched cloud at the pose found exactly if it is to be saved, until it is removed again.",
     ["histories", "configurations"], "all sequences of lines from an alphabet of body and head poses, clouds and restarts for all limits; all sequences of matched, saved and removed clouds with all configurations",
     UT + "Which lines are kept depends on the sequence of poses of body and head.",
     ["icp/icpLocalization.cpp", "icp/icpLocalization.hpp"], [("collecting lines", "icp/icpLocalization.cpp: addScanLineToPointCloud, addLaserScan, hasNewPointCloud"), ("cloud", "icp/icpLocalization.cpp: generatePointcloud, generatePointcloudSample"), ("matching", "icp/icpLocalization.cpp: doScanMatch, removeLastSavedPointCloud, loadEnvironment")])
