// vp-level: proof
// vp-flags: -fno-sized-deallocation
// vp-sources: this_thread error detail/exception detail/util
#include <frame.hpp>
