#ifndef AUDI_CONFIG_HPP
#define AUDI_CONFIG_HPP
#endif
