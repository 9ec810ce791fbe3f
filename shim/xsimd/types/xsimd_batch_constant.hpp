#include <xsimd/xsimd.hpp>
