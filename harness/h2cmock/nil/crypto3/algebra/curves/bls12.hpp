// stand-in for the curve header: only the names of the groups are needed
#pragma once
#include <h2cmock.hpp>
