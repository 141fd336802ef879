#pragma once
#include <h2cmock.hpp>
