/* Logging is discarded, except that a failing debug assertion is an error */
#ifndef VF_REAL_LOG
#include "vf.h"
#include "gutil_log.h"
GLogModule gutil_log_default = { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_NONE, 0, 0 };
gboolean gutil_log_timestamp, gutil_log_tid;
void gutil_log(const GLogModule* m, int level, const char* f, ...) { }
void gutil_logv(const GLogModule* m, int level, const char* f, va_list va) { }
gboolean gutil_log_enabled(const GLogModule* m, int level) { return FALSE; }
void gutil_log_assert(const GLogModule* m, int level, const char* expr, const char* file, int line)
{
    __CPROVER_assert(0, "debug assertion of the library");
}
#endif
