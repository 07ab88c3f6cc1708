/* Stand-ins for the logging sink only (src/logging.c writes to stderr). The
 * sink reads nothing and writes nothing the properties speak of. */
#include <stddef.h>
#include <swiftnav/logging.h>
static void vp_log(int level, const char *msg, ...) {
  (void)level;
  (void)msg;
}
static void vp_detailed_log(
    int level, const char *file_path, const int line_number, const char *msg, ...) {
  (void)level;
  (void)file_path;
  (void)line_number;
  (void)msg;
}
pfn_log log_ = vp_log;
pfn_detailed_log detailed_log_ = vp_detailed_log;
const char *truncate_path_(char *path) { return path; }
const char *level_string[] = {"EMERGENCY", "ALERT",  "CRITICAL", "ERROR",
                              "WARNING",   "NOTICE", "INFO",     "DEBUG"};
