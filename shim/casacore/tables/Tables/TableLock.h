#pragma once
#include <casacore/mini.h>
