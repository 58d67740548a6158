#include <Box2D/Box2D.h>
