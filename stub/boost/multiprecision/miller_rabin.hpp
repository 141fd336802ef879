#include <vf_mp.hpp>
