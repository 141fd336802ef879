#pragma once
#include <boost/multiprecision/cpp_int.hpp>
namespace boost { namespace multiprecision { namespace backends { template<class B, class S> class modular_adaptor; } } }
