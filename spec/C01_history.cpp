// vp-level: bounded
// vp-bound: limits 0 to 3, at most 6 operations for limit 0, 8 otherwise (5 and 6 for the move-only type), every interleaving of them with the executor
// vp-sources: channel error this_thread detail/exception detail/util
#include <chan.hpp>
VP_CONTRACT(chan_limit0) { chan_hist<u32, 6> h(0); h.form = vp_choice("form", 3); h.run(6, 0, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_limit1) { chan_hist<u32, 8> h(1); h.run(8, 0, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_limit2) { chan_hist<u32, 8> h(2); h.form = 1; h.run(8, 0, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_limit3) { chan_hist<u32, 8> h(3); h.form = 2; h.run(8, 0, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_move_limit0) { chan_hist<box, 5> h(0); h.run(5, 0, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(chan_move_limit1) { chan_hist<box, 6> h(1); h.run(6, 0, false); h.finish(); VP_COVER("end"); }
