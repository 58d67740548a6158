#ifndef VERIF_C01
#define VERIF_C01
#include <string>
#include <vector>
struct ToolExit { int code; explicit ToolExit(int c = 0) : code(c) {} };
struct Run { bool ended; std::string out, why; };
enum Tool { CREATE, CREATE_GRID, ADD_GRID, DELETE, NOISE, ILLUMINATION, GRID_TO_MLS, MLS, SLOPES, MLS_TO_GRID, MLS_TO_PC, TRAJECTORY, SLAM6D, TRAVERSABILITY, UPDATE, INFO, ASC2PLY };
Run run(int tool, std::vector<std::string> args);
char const* toolName(int t);
#endif
