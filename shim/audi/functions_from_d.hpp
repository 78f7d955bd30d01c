#include <audi/functions.hpp>
