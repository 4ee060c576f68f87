// vp-level: bounded
// vp-bound: limits 0 to 3, at most 6 operations for limit 0, 8 otherwise, every interleaving of them with the executor
// vp-sources: channel error this_thread detail/exception detail/util
#include <chan.hpp>
VP_CONTRACT(chan_void_limit0) { chan_hist<void, 6> h(0); h.run(6, 0, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_void_limit1) { chan_hist<void, 8> h(1); h.run(8, 0, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_void_limit2) { chan_hist<void, 8> h(2); h.run(8, 0, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_void_limit3) { chan_hist<void, 8> h(3); h.run(8, 0, false); h.finish(); VP_COVER("end"); }
