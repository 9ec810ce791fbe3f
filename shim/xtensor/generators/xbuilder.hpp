#include <xtensor/mini.hpp>
