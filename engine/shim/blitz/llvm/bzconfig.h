// Debian ships only the configuration of blitz for gcc; clang 18 understands the same features.
#include <blitz/gnu/bzconfig.h>
