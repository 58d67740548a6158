// the command line tools as functions: copies with a renamed main, made by check.py
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <regex>
#include <unistd.h>
#include <sys/stat.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/algorithm/string.hpp>
#include <boost/filesystem.hpp>
#include <boost/foreach.hpp>
#include <boost/format.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/special_functions/fpclassify.hpp>
#include <boost/program_options.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/scoped_ptr.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/tuple/tuple.hpp>
#include <boost/version.hpp>
#include <icp/icp.hpp>
#include <envire/Core.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grid.hpp>
#include <envire/maps/GridBase.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MLSToPointCloud.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/tools/GraphViz.hpp>
#include "C01.hpp"
#define HAVE_STD_REGEX
#define exit(code) throw ToolExit(code)
namespace t_create {
#include <tools/env_create.cpp>
}
namespace t_create_grid {
#include <tools/env_create_grid.cpp>
}
namespace t_add_grid {
#include <tools/env_add_grid.cpp>
}
namespace t_delete {
#include <tools/env_delete_item.cpp>
}
namespace t_noise {
#include <tools/env_grid_add_noise.cpp>
}
namespace t_illumination {
#include <tools/env_grid_illumination.cpp>
}
namespace t_grid_to_mls {
#include <tools/env_grid_to_mls.cpp>
}
namespace t_mls {
#include <tools/env_mls.cpp>
}
namespace t_slopes {
#include <tools/env_mls_slopes.cpp>
}
namespace t_mls_to_grid {
#include <tools/env_mls_to_grid.cpp>
}
namespace t_mls_to_pc {
#include <tools/env_mls_to_pointcloud.cpp>
}
namespace t_trajectory {
#include <tools/env_mls_trajectory.cpp>
}
namespace t_slam6d {
#include <tools/env_slam6d.cpp>
}
namespace t_traversability {
#include <tools/env_traversability.cpp>
}
namespace t_update {
#include <tools/env_update.cpp>
}
namespace t_info {
#include <tools/env_info.cpp>
}
namespace t_asc2ply {
#include <tools/asc2ply.cpp>
}
#undef exit
typedef int (*Main)(int, char**);
static Main const MAINS[] = { t_create::tool_main, t_create_grid::tool_main, t_add_grid::tool_main, t_delete::tool_main, t_noise::tool_main, t_illumination::tool_main, t_grid_to_mls::tool_main, t_mls::tool_main, t_slopes::tool_main, t_mls_to_grid::tool_main, t_mls_to_pc::tool_main, t_trajectory::tool_main, t_slam6d::tool_main, t_traversability::tool_main, t_update::tool_main, t_info::tool_main, t_asc2ply::tool_main };
static char const* const NAMES[] = { "env_create", "env_create_grid", "env_add_grid", "env_delete_item", "env_grid_add_noise", "env_grid_illumination", "env_grid_to_mls", "env_mls", "env_mls_slopes", "env_mls_to_grid", "env_mls_to_pointcloud", "env_mls_trajectory", "env_slam6d", "env_traversability", "env_update", "env_info", "asc2ply" };
Run run(int tool, std::vector<std::string> args) {
    Run r; r.ended = true; std::vector<std::vector<char> > text; args.insert(args.begin(), NAMES[tool]); for (auto& a : args) { text.push_back(std::vector<char>(a.begin(), a.end())); text.back().push_back(0); } std::vector<char*> argv; for (auto& t : text) argv.push_back(t.data()); argv.push_back(0);
    std::ostringstream out, err; std::streambuf *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf()); std::ios_base::fmtflags f = std::cout.flags(); std::streamsize p = std::cout.precision();
    try { int rc = MAINS[tool](int(args.size()), argv.data()); if (rc) { r.ended = false; r.why = "return " + std::to_string(rc); } } catch (ToolExit& x) { r.ended = false; r.why = "exit " + std::to_string(x.code); } catch (std::exception& x) { r.ended = false; r.why = x.what(); }
    std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.flags(f); std::cout.precision(p); r.out = out.str(); return r; }
char const* toolName(int t) { return NAMES[t]; }
