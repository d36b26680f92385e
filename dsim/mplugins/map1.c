#define FILENO 1
#include "map.h"
