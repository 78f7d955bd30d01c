#include <audi/vectorized.hpp>
