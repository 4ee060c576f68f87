// vp-level: proof
// vp-sources: this_thread error detail/exception detail/util
#include <frame.hpp>
