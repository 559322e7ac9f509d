/* Stands in for gutil_log.c where logging is not the subject */
#include "vf.h"
#include "gutil_log.h"
GLogModule gutil_log_default = { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_NONE, 0, 0 };
gboolean gutil_log_timestamp, gutil_log_tid;
void gutil_log(const GLogModule* m, int level, const char* f, ...) { }
void gutil_logv(const GLogModule* m, int level, const char* f, va_list va) { }
gboolean gutil_log_enabled(const GLogModule* m, int level) { return FALSE; }
void gutil_log_assert(const GLogModule* m, int level, const char* expr, const char* file, int line)
{
    fprintf(stderr, "%s:%d: %s\n", file, line, expr);
    vf_native_check(0, "debug assertion of the library", file, line);
}
