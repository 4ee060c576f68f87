// vp-level: proof
// vp-optional
// vp-sources: channel error this_thread detail/exception detail/util
#include <chan_step.hpp>
VP_CONTRACT(read_step) { read_contract<void>(); VP_COVER("end"); }
VP_CONTRACT(write_step) { write_contract<void>(); VP_COVER("end"); }
VP_CONTRACT(woken_read_step) { woken_read_contract<void>(); VP_COVER("end"); }
VP_CONTRACT(woken_write_step) { woken_write_contract<void>(); VP_COVER("end"); }
