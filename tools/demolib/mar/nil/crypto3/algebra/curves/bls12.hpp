#pragma once
#include <mardemo.hpp>
