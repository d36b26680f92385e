/* Shadows the generated config.h: the same configuration without Redland. */
#include_next "config.h"
#undef HAVE_REDLAND
