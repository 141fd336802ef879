#pragma once
#include <boost/multiprecision/cpp_int.hpp>
