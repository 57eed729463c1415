// P29: what an operation takes it gives back.  Every operation of the library is repeated on the same inputs, successful and failing ones;
// after a first (warming) run, memory that belongs to nobody must not pile up and no file may stay open.
#include "ops.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static void steady(const char* what, std::function<std::string()> op) {
  op(); int fd = fdprobe(); size_t b[4]; for (int k = 0; k < 4; k++) { b[k] = __sanitizer_get_current_allocated_bytes(); if (k < 3) op(); } PBT_CHECK(fdprobe() == fd, "%s leaves a file open", what);
  PBT_CHECK(!(b[1] > b[0] && b[2] > b[1] && b[3] > b[2]), "%s keeps memory every time: %zu, %zu and %zu bytes in three runs", what, b[1] - b[0], b[2] - b[1], b[3] - b[2]); }
PBT_SUB(readers, 60000, 1500000) { op_read(s, steady); }
PBT_SUB(writers, 6000, 150000) { op_write(s, steady); }
PBT_SUB(frames, 8000, 200000) { op_frame(s, steady); }
PBT_SUB(buffers, 2500, 60000) { op_buffer(s, steady); }
PBT_SUB(tracking, 1500, 40000) { op_track(s, steady); }
PBT_SUB(runs, 300, 8000) { op_run(s, steady); }
PBT_SUB(matching, 1000, 25000) { op_match(s, steady); }
PBT_SUB(reconstruction, 6000, 150000) { op_reconstruct(s, steady); }
PBT_SUB(calibration, 2500, 60000) { op_calibrate(s, steady); }
PBT_SUB(images, 20000, 500000) { op_image(s, steady); }
