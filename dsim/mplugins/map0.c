#define FILENO 0
#include "map.h"
