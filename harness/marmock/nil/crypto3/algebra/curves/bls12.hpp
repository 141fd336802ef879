#pragma once
#include <marmock.hpp>
