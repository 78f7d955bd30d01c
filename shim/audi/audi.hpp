#ifndef AUDI_HPP
#define AUDI_HPP
#include <audi/config.hpp>
#include <audi/io.hpp>
#include <audi/vectorized.hpp>
#include <audi/gdual.hpp>
#include <audi/functions.hpp>
#endif
