// vp-level: bounded
// vp-bound: limits 0, 1 and 2, at most 4 operations (3 for the move-only type), up to 2 cancellations and a close() at any moment
// vp-sources: channel error this_thread detail/exception detail/util
#include <chan.hpp>
VP_CONTRACT(close_0) { chan_hist<u32, 5> h(0); h.run(5, 0, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(close_1) { chan_hist<u32, 5> h(1); h.run(5, 0, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(close_2) { chan_hist<u32, 5> h(2); h.run(5, 0, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(close_void_0) { chan_hist<void, 5> h(0); h.run(5, 0, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(close_void_1) { chan_hist<void, 5> h(1); h.run(5, 0, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(close_void_2) { chan_hist<void, 5> h(2); h.run(5, 0, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_0) { chan_hist<u32, 5> h(0); h.run(5, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_1) { chan_hist<u32, 5> h(1); h.run(5, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_2) { chan_hist<u32, 5> h(2); h.run(5, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_void_0) { chan_hist<void, 5> h(0); h.run(5, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_void_1) { chan_hist<void, 5> h(1); h.run(5, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_void_2) { chan_hist<void, 5> h(2); h.run(5, 2, false); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_close_0) { chan_hist<u32, 4> h(0); h.run(4, 1, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_close_1) { chan_hist<u32, 4> h(1); h.run(4, 1, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_close_void_0) { chan_hist<void, 4> h(0); h.run(4, 1, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_close_void_1) { chan_hist<void, 4> h(1); h.run(4, 1, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_close_move_0) { chan_hist<box, 3> h(0); h.run(3, 1, true); h.finish(); VP_COVER("end"); }
VP_CONTRACT(cancel_close_move_1) { chan_hist<box, 4> h(1); h.run(4, 1, true); h.finish(); VP_COVER("end"); }
