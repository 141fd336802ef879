#include <pmock.hpp>
