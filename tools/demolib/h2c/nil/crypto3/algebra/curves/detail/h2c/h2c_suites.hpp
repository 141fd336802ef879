#pragma once
#include <h2cdemo.hpp>
