#include <fmt/core.h>
