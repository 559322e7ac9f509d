/* Logging: C30 - C34 */
#include "vf.h"
#include "gutil_log.h"
#include "gutil_misc.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <syslog.h>
#include <setjmp.h>
#include <sys/syscall.h>
#ifdef VF_CBMC
#include "vf_stdio.h"
#endif

#ifndef MINN
#define MINN -1
#endif
#ifndef MAXN
#define MAXN 2
#endif
#ifndef MAXTEXT
#define MAXTEXT 1400
#endif

/* Addresses of literals have no known order or identity, unlike these */
static const char name_empty[] = "", name_ms[] = "m%s", name_def[] = "def", name_m[] = "m", name_old[] = "old", name_new[] = "new";
static const char* const names[] = { NULL, name_empty, name_ms };

/* Text that is expected */
static char expect[MAXTEXT];
static gsize nexpect;
static void ex(const char* s, gsize n)
{
    gsize i;
    for (i = 0; i < n; i++) expect[nexpect++] = s[i];
}
#define EX(s) ex(s, sizeof(s) - 1)
static void ex_number(guint v)
{
    char t[12];
    guint n = 0;
    do { t[n++] = '0' + v % 10; v /= 10; } while (v);
    while (n) ex(t + (--n), 1);
}

/* What is written to stdout and stderr */
#ifdef VF_CBMC
static void capture(void) { vf_out_len = 0; }
static void check_captured(FILE* f)
{
    gsize i;
    VF_CHECK(vf_out_len == nexpect, "length of the output");
    VF_CHECK(!nexpect || vf_out_file == f, "stream");
    for (i = 0; i < nexpect; i++) VF_CHECK(vf_out[i] == expect[i], "output is exactly the expected line");
}
#define CHECK_CAPTURED(f) check_captured(f)
#else
static FILE* saved[2];
static FILE* cap[2];
static char* cap_buf[2];
static size_t cap_len[2];
static void capture(void)
{
    int i;
    for (i = 0; i < 2; i++) cap[i] = open_memstream(cap_buf + i, cap_len + i);
    saved[0] = stdout;
    saved[1] = stderr;
    stdout = cap[0];
    stderr = cap[1];
}
static void uncapture(void)
{
    int i;
    stdout = saved[0];
    stderr = saved[1];
    for (i = 0; i < 2; i++) fclose(cap[i]);
}
static void check_captured(int i)
{
    VF_CHECK(cap_len[i] == nexpect, "length of the output");
    VF_CHECK(!memcmp(cap_buf[i], expect, nexpect), "output is exactly the expected line");
    VF_CHECK(!cap_len[1 - i], "stream");
    free(cap_buf[0]);
    free(cap_buf[1]);
}
#define CHECK_CAPTURED(f) (uncapture(), check_captured((f) == stderr))
#endif
static guint my_tid(void) { return (guint) syscall(SYS_gettid); }

/* Time stamps */
static const char default_format[] = "%Y-%m-%d %H:%M:%S ";
static const char* want_format = default_format;    /* That's how it starts */
static const char* time_text;   /* NULL if strftime fails */
static int nstrftime;
time_t time(time_t* t) { if (t) *t = 1700000000; return 1700000000; }
struct tm* localtime_r(const time_t* t, struct tm* tm)
{
    VF_CHECK(*t == 1700000000, "current time is used");
    memset(tm, 0, sizeof(*tm));
    return tm;
}
struct tm* localtime(const time_t* t)
{
    static struct tm tm;
    return localtime_r(t, &tm);
}
size_t strftime(char* s, size_t max, const char* f, const struct tm* tm)
{
    const char* src = time_text ? time_text : "garbage?";
    size_t n = strlen(src);

    nstrftime++;
    VF_CHECK(want_format && !strcmp(f, want_format), "current time stamp format is used");
    VF_CHECK(n < max, "there is room for the time stamp");
    memcpy(s, src, n);
    if (!time_text) return 0;       /* No terminator */
    s[n] = 0;
    return n;
}

/* System log */
static int nsyslog, nopen, nclose, syslog_priority;
static char syslog_text[MAXTEXT];
static int syslog_len;
void vsyslog(int priority, const char* f, va_list va)
{
    nsyslog++;
    syslog_priority = priority;
    syslog_len = g_vsnprintf(syslog_text, sizeof(syslog_text), f, va);
}
void syslog(int priority, const char* f, ...)
{
    va_list va;
    va_start(va, f);
    vsyslog(priority, f, va);
    va_end(va);
}
void openlog(const char* ident, int option, int facility) { nopen++; }
void closelog(void) { nclose++; }

/* GLib log */
static int nglib, glib_len;
static const char* glib_domain;
static GLogLevelFlags glib_flags;
static char glib_text[MAXTEXT];
void g_logv(const gchar* domain, GLogLevelFlags flags, const gchar* f, va_list va)
{
    nglib++;
    glib_domain = domain;
    glib_flags = flags;
    glib_len = g_vsnprintf(glib_text, sizeof(glib_text), f, va);
}
static void check_text(const char* text, int len)
{
    gsize i;
    VF_CHECK(len == (int) nexpect, "length of the text");
    for (i = 0; i < nexpect; i++) VF_CHECK(text[i] == expect[i], "text is exactly the expected one");
    VF_CHECK(!text[nexpect], "text is exactly the expected one");
}

static void reset(void)
{
    nexpect = 0;
    nstrftime = nsyslog = nopen = nclose = nglib = 0;
    want_format = NULL;
    time_text = NULL;
    gutil_log_timestamp = FALSE;
    gutil_log_tid = FALSE;
    gutil_log_func = gutil_log_stdout;
    gutil_log_default.name = NULL;
    gutil_log_default.level = GLOG_LEVEL_INFO;
    gutil_log_default.flags = 0;
    gutil_log_default.log_proc = NULL;
    gutil_log_default.parent = NULL;
    gutil_log_set_timestamp_format(NULL);
}

#ifndef MAXCHAIN
#define MAXCHAIN 3
#endif
/*
 * Delivery (C30)
 */
static int delivered[3];        /* By the function: module's, global 2, global 1 */
static const GLogModule* got_module;
static const char* got_name;
static int got_level, got_arg;
static const char* got_format;
static void proc_common(int k, int level, const char* format, va_list va)
{
    delivered[k]++;
    got_level = level;
    got_format = format;
    got_arg = va_arg(va, int);
}
static void proc_own(const GLogModule* m, int level, const char* f, va_list va) { got_module = m; proc_common(0, level, f, va); }
static void proc_global2(const GLogModule* m, int level, const char* f, va_list va) { got_module = m; proc_common(1, level, f, va); }
static void proc_global(const char* name, int level, const char* f, va_list va) { got_name = name; proc_common(2, level, f, va); }

void h_delivery(void)
{
    static const char format[] = "%d";
    GLogModule m[MAXCHAIN] = { { "m0", NULL, NULL, GLOG_LEVEL_MAX, 0, 0, 0 } };
    GLogProc2 const old2 = gutil_log_func2;

    /* Length of the path, where the messages go */
    VF_SPLIT(n, 0, MAXCHAIN + 1) VF_SPLIT(own, 0, 1) VF_SPLIT(global, 0, 3) {
        const GLogModule* module = n ? m : NULL;
        const int level = vf_int(), arg = vf_int();
        const int chain = n > MAXCHAIN ? MAXCHAIN - 1 : n; /* The longest one ends with the default module */
        int i, expected = -1, enabled = -1, effective;
        GLogProc2 def;
        const GLogModule* x;

        reset();
        def = gutil_log_func2;
        for (i = 0; i < MAXCHAIN; i++) {
            GLogModule x = { i == 0 ? "m0" : i == 1 ? "m1" : "m2", NULL, NULL, GLOG_LEVEL_MAX, 0, 0, 0 };
            memcpy(m + i, &x, sizeof(x));
            m[i].level = vf_int();
            m[i].flags = vf_int();
            m[i].parent = i + 1 < chain ? m + i + 1 : i + 1 == chain && n > MAXCHAIN ? &gutil_log_default : NULL;
        }
        if (own) m[0].log_proc = proc_own;
        gutil_log_default.level = vf_int();
        gutil_log_default.flags = vf_int();
        gutil_log_default.name = name_def;
        if (global == 1) gutil_log_func2 = proc_global2;
        else if (global == 2) gutil_log_func2 = NULL;
        gutil_log_func = global == 3 ? NULL : proc_global;
        delivered[0] = delivered[1] = delivered[2] = 0;

        /* Walk along the parents */
        for (x = module ? module : &gutil_log_default; ; x = x->parent) {
            if (x->flags & GLOG_FLAG_DISABLE) { enabled = 0; break; }
            if (x->level == GLOG_LEVEL_INHERIT && x->parent) continue;
            effective = x->level == GLOG_LEVEL_INHERIT ? gutil_log_default.level : x->level;
            enabled = level == GLOG_LEVEL_ALWAYS || (level > GLOG_LEVEL_NONE && level <= effective);
            break;
        }
        if (!gutil_log_func2) enabled = 0;
        VF_CHECK(gutil_log_enabled(module, level) == enabled, "enabled query follows the configuration");
        gutil_log(module, level, format, arg);
        expected = own && n ? 0 : global == 1 ? 1 : global == 3 ? -1 : 2;
        for (i = 0; i < 3; i++) {
            VF_CHECK(delivered[i] == (enabled && expected == i), "message is delivered exactly once to the right function when enabled");
        }
        if (enabled && expected >= 0) {
            VF_CHECK(got_level == level && got_format == format && got_arg == arg, "level and text of the message");
            if (expected < 2) VF_CHECK(got_module == (module ? module : &gutil_log_default), "module of the message");
            else if ((module ? module : &gutil_log_default)->flags & GLOG_FLAG_HIDE_NAME) VF_CHECK(!got_name, "name is hidden");
            else VF_CHECK(got_name == (module ? module : &gutil_log_default)->name, "name of the module");
        }
        gutil_log_func2 = old2;
        reset();
        if (n == MAXCHAIN + 1 && own && global == 3) VF_REACH("last");
        VF_STOP();
    }
}

/*
 * Text (C31)
 */
#ifndef LENGTHS
#define LENGTHS 0
#endif
static const int lengths[] = { LENGTHS };
#define NLENGTHS ((int) G_N_ELEMENTS(lengths))
static char text[MAXTEXT];
static void make_text(int len)
{
    int i;
    for (i = 0; i < len; i++) text[i] = i % 3 ? 'a' + i % 26 : '%';
    text[len] = 0;
    if (len) {
        const char first = (char) vf_u8(), last = (char) vf_u8();
        VF_ASSUME(first && last);
        text[0] = first;
        text[len - 1] = last;
    }
    VF_STRING(text, len);
}
static int name_len(int k) { return k == 2 ? 3 : 0; }

#ifndef TIMESTAMP
#define TIMESTAMP 0
#endif
#ifndef LONG
#define LONG 0
#endif
void h_stdio(void)
{
    VF_SPLIT(li, 0, NLENGTHS - 1) VF_SPLIT(tid, 0, 1) VF_SPLIT(name, 0, 2) VF_SPLIT(level, GLOG_LEVEL_ALWAYS + 2, GLOG_LEVEL_VERBOSE + 2) VF_SPLIT(dest, 0, 1) {
        /* GLOG_LEVEL_ALWAYS is negative, the others are tried too */
        const int lev = level - 2 < GLOG_LEVEL_ERR ? GLOG_LEVEL_ALWAYS : level - 2;
        GLogModule module = { names[name], NULL, dest ? gutil_log_stderr2 : NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_VERBOSE, 0, 0 };
        const int len = lengths[li];
        const gint64 live = vf_live();

        if (level == 1 || level == 2 || (LONG && !(tid && name == 2 && level == GLOG_LEVEL_ERR + 2))) VF_STOP(); else {
        reset();
        make_text(len);
        gutil_log_tid = tid;
        gutil_log_timestamp = TIMESTAMP > 0;
        switch (TIMESTAMP) {
        case 1: want_format = default_format; time_text = "t%dt "; break;
        case 2: want_format = "%X%%"; time_text = "0123456789012345678901234567890"; gutil_log_set_timestamp_format(want_format); break;
        case 3: gutil_log_set_timestamp_format(""); break;
        case 4: want_format = default_format; break;
        }
        if (tid) { EX("["); ex_number(my_tid()); EX("] "); }
        if (time_text) ex(time_text, strlen(time_text));
        if (name == 2) { EX("["); ex(names[2], name_len(2)); EX("] "); }
        if (lev == GLOG_LEVEL_WARN) EX("WARNING: ");
        if (lev == GLOG_LEVEL_ERR) EX("ERROR: ");
        ex(text, len);
        EX("\n");
        capture();
        gutil_log(&module, lev, "%s", text);
        CHECK_CAPTURED(dest ? stderr : stdout);
        VF_CHECK(nstrftime == (TIMESTAMP == 1 || TIMESTAMP == 2 || TIMESTAMP == 4), "time stamp is made when it's needed");
        VF_STRING_GONE(text);
        reset();
        VF_NOLEAK(live);
        if (li == NLENGTHS - 1 && tid && name == 2 && dest) VF_REACH("last");
        VF_STOP();
        }
    }
}

static const int priorities[] = { LOG_NOTICE, LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG };
static const int glib_levels[] = { G_LOG_LEVEL_MESSAGE, G_LOG_LEVEL_CRITICAL, G_LOG_LEVEL_WARNING, G_LOG_LEVEL_MESSAGE, G_LOG_LEVEL_INFO, G_LOG_LEVEL_DEBUG };
void h_syslog(void)
{
    VF_SPLIT(li, 0, NLENGTHS - 1) VF_SPLIT(tid, 0, 1) VF_SPLIT(name, 0, 3) VF_SPLIT(level, 0, GLOG_LEVEL_VERBOSE) {
        const int lev = level ? level : GLOG_LEVEL_ALWAYS;
        GLogModule module = { name == 3 ? name_def : names[name], NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_VERBOSE, 0, 0 };
        const int len = lengths[li];
        const gint64 live = vf_live();

        reset();
        make_text(len);
        gutil_log_tid = tid;
        gutil_log_default.name = name_def;
        gutil_log_func = gutil_log_syslog;
        if (tid) { EX("["); ex_number(my_tid()); EX("] "); }
        if (name == 2) { EX("["); ex(names[2], name_len(2)); EX("] "); }
        if (lev == GLOG_LEVEL_WARN) EX("WARNING! ");
        if (lev == GLOG_LEVEL_ERR) EX("ERROR! ");
        ex(text, len);
        gutil_log(&module, lev, "%s", text);
        VF_CHECK(nsyslog == 1 && !nglib, "one record");
        VF_CHECK(syslog_priority == priorities[level], "severity corresponds to the level");
        check_text(syslog_text, syslog_len);
        VF_STRING_GONE(text);
        reset();
        VF_NOLEAK(live);
        if (li == NLENGTHS - 1 && tid && name == 3 && level == GLOG_LEVEL_VERBOSE) VF_REACH("last");
        VF_STOP();
    }
}
void h_glib(void)
{
    VF_SPLIT(li, 0, NLENGTHS - 1) VF_SPLIT(name, 0, 2) VF_SPLIT(level, 0, GLOG_LEVEL_VERBOSE) VF_SPLIT(how, 0, 1) {
        const int lev = level ? level : GLOG_LEVEL_ALWAYS;
        GLogModule module = { names[name], NULL, how ? gutil_log_glib2 : NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_VERBOSE, 0, 0 };
        const int len = lengths[li];

        reset();
        make_text(len);
        gutil_log_func = gutil_log_glib;
        ex(text, len);
        gutil_log(&module, lev, "%s", text);
        VF_CHECK(nglib == 1 && !nsyslog, "one record");
        VF_CHECK(glib_flags == glib_levels[level], "severity corresponds to the level");
        VF_CHECK(glib_domain == names[name], "name of the module");
        check_text(glib_text, glib_len);
        VF_STRING_GONE(text);
        reset();
        if (li == NLENGTHS - 1 && name == 2 && level == GLOG_LEVEL_VERBOSE) VF_REACH("last");
        VF_STOP();
    }
}

/*
 * Level options (C32)
 */
static const char* const level_names[] = { "none", "error", "warning", "info", "debug", "verbose" };
static int level_of(const char* s, int n)
{
    int i, k;
    if (n == 1 && s[0] >= '0' && s[0] <= '5') return s[0] - '0';
    if (n > 0) {
        for (i = 0; i < 6; i++) {
            for (k = 0; k < n && level_names[i][k] && level_names[i][k] == s[k]; k++);
            if (k == n) return i;
        }
    }
    return -1;
}
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#define MODULES 3
static const char* const module_names[MODULES] = { "ab", "a", "mOdulE" };
static int module_of(const char* s, int n)
{
    int i, k;
    for (i = 0; i < MODULES; i++) {
        const char* name = module_names[i];
        for (k = 0; k < n && name[k] && lower(name[k]) == lower(s[k]); k++);
        if (k == n && !name[k]) return i;
    }
    return -1;
}
static void check_option(const char* opt, int len)
{
    GLogModule m[MODULES] = {
        { module_names[0], NULL, NULL, GLOG_LEVEL_MAX, 42, 0, 0 },
        { module_names[1], NULL, NULL, GLOG_LEVEL_MAX, 43, 0, 0 },
        { module_names[2], NULL, NULL, GLOG_LEVEL_MAX, 44, 0, 0 }};
    GLogModule* mods[MODULES] = { m, m + 1, m + 2 };
    GError* error = NULL;
    const gboolean want_error = vf_bool();
    const gint64 live = vf_live();
    int i, sep, lev, mod = -1;
    gboolean ok, res;

    reset();
    gutil_log_default.level = 41;
    for (sep = 0; sep < len && opt[sep] != ':'; sep++);
    if (sep < len) {
        lev = level_of(opt + sep + 1, len - sep - 1);
        mod = module_of(opt, sep);
        ok = lev >= 0 && mod >= 0;
    } else {
        lev = level_of(opt, len);
        ok = lev >= 0;
    }
    res = gutil_log_parse_option(opt, mods, MODULES, want_error ? &error : NULL);
    VF_CHECK(res == TRUE || res == FALSE, "boolean result");
    VF_CHECK(res == ok, "option is accepted exactly when it's valid");
    for (i = 0; i < MODULES; i++) VF_CHECK(m[i].level == (ok && mod == i ? lev : 42 + i), "level of the named module is set and nothing else");
    VF_CHECK(gutil_log_default.level == (ok && mod < 0 ? lev : 41), "default level is set exactly when no module is named");
    VF_CHECK((error != NULL) == (want_error && !ok), "error is reported exactly when it's asked for");
    if (error) { VF_CHECK(error->message != NULL, "error message"); g_error_free(error); }
    reset();
    VF_NOLEAK(live);
}
#ifndef SLEN
#define SLEN 3
#endif
/* Any string of SLEN characters */
void h_option(void)
{
    VF_SPLIT(len, 0, SLEN) VF_SPLIT(sep, -1, len - 1) {
        char opt[SLEN + 1];
        int i;
        for (i = 0; i < len; i++) {
            opt[i] = (char) vf_u8();
            if (i == sep) opt[i] = ':';
            else VF_ASSUME(opt[i] && (i > sep && sep >= 0 || opt[i] != ':'));
        }
        opt[len] = 0;
        VF_STRING(opt, len);
        check_option(opt, len);
        VF_STRING_GONE(opt);
        if (len == SLEN && sep == len - 1) VF_REACH("last");
        VF_STOP();
    }
}
/* Prefixes of valid ones and something wrong, or not, at the end */
void h_option_long(void)
{
    static const char* const heads[] = { "none", "error", "warning", "info", "debug", "verbose", "module:", "MoDuLe:warning", "aB:Verbose", "a:n", "abc:none", "modul:info", "mo:2", "modules:4", "mod:debug", "ab:", ":", "ab:none:" };
    VF_SPLIT(h, 0, (int) G_N_ELEMENTS(heads) - 1) VF_SPLIT(n, 1, 15) {
        char opt[16];
        int i, len;
        for (len = 0; heads[h][len]; len++);
        if (n > len) VF_STOP(); else {
        for (i = 0; i < n; i++) opt[i] = heads[h][i];
        opt[n] = 0;
        if (n == len) {
            const char last = (char) vf_u8();
            VF_ASSUME(last && last != ':');
            opt[n - 1] = last;
        }
        VF_STRING(opt, n);
        check_option(opt, n);
        VF_STRING_GONE(opt);
        if (h == 8 && n == 10) VF_REACH("last");
        VF_STOP();
        }
    }
}

/*
 * Description of the options (C43)
 */
static const char* skip_spaces(const char* s) { while (*s == ' ') s++; return s; }
static const char* next_line(const char* s)
{
    while (*s != '\n') { VF_CHECK(*s, "every line is terminated"); s++; }
    return s + 1;
}
void h_description(void)
{
    VF_SPLIT(n, MINN, MAXN) VF_SPLIT(len, 0, 3) {
        const gint64 live = vf_live();
        /* The sizes are different, and those of no literal */
        char name0[41], name1[43], name2[47];
        char* const name[3] = { name0, name1, name2 };
        GLogModule module[3] = {
            { name0, NULL, NULL, GLOG_LEVEL_MAX, 1, 0, 0 },
            { name1, NULL, NULL, GLOG_LEVEL_MAX, 2, GLOG_FLAG_HIDE_NAME, 0 },
            { name2, NULL, NULL, GLOG_LEVEL_MAX, 3, GLOG_FLAG_DISABLE, 0 }
        };
        GLogModule* list[3] = { module + 0, module + 1, module + 2 };
        const int start = gutil_log_default.level;
        const char* s;
        char* text;
        int i, k, marked = -1, levels = 0;

        for (i = 0; i < 3; i++) {
            const int l = (len + i) % 4 + 1;
            for (k = 0; k < l; k++) {
                /* A symbolic first one could be mistaken for indentation */
                name[i][k] = k ? (char) vf_u8() : (char)('x' - i);
                VF_ASSUME(name[i][k] && name[i][k] != '\n');
            }
            name[i][l] = 0;
            VF_STRING(name[i], l);
        }
        text = gutil_log_description(n < 0 ? NULL : list, n < 0 ? 2 : n);
        VF_CHECK(text != NULL, "text is produced");
        s = next_line(text);
        while (*skip_spaces(s) >= '0' && *skip_spaces(s) <= '9') {
            char number[2], level[12];
            static const char def[] = "(default)";
            const char* end;

            s = skip_spaces(s);
            number[0] = *s++;
            number[1] = 0;
            VF_CHECK(*s == ',', "number of a level has one digit");
            s = skip_spaces(s + 1);
            for (k = 0; *s != ' '; k++) { VF_CHECK(*s && *s != '\n' && k < 11, "level has a name"); level[k] = *s++; }
            level[k] = 0;
            VF_CHECK(levels <= GLOG_LEVEL_VERBOSE && !strcmp(level, level_names[levels]), "full name of the level");
            VF_CHECK(gutil_log_parse_option(number, NULL, 0, NULL) && gutil_log_default.level == levels, "levels are listed in order under the numbers that select them");
            gutil_log_default.level = start;
            VF_CHECK(gutil_log_parse_option(level, NULL, 0, NULL) && gutil_log_default.level == levels, "levels are listed under the full names that select them");
            gutil_log_default.level = start;
            end = next_line(s);
            for (i = sizeof(def) - 2, k = 2; i >= 0 && end[-k] == def[i]; i--, k++);
            if (i < 0) {
                VF_CHECK(marked < 0, "one level is marked as the default");
                marked = levels;
            }
            s = end;
            levels++;
        }
        VF_CHECK(levels == GLOG_LEVEL_VERBOSE + 1, "every level is listed");
        VF_CHECK(marked == GLOG_LEVEL_DEFAULT && marked == start, "the default level is marked");
        if (n >= 0) {
            s = next_line(next_line(s));    /* Empty line, title */
            for (i = 0; i < n; i++) {
                const int l = (len + i) % 4 + 1;
                s = skip_spaces(s);
                for (k = 0; k < l; k++) VF_CHECK(s[k] == name[i][k], "every module is listed by its name, in order");
                VF_CHECK(s[l] == '\n', "one line for each module");
                s += l + 1;
            }
        }
        VF_CHECK(!*s, "nothing else follows");
        g_free(text);
        for (i = 0; i < 3; i++) {
            VF_CHECK(module[i].level == i + 1, "no level is changed");
            VF_STRING_GONE(name[i]);
        }
        VF_NOLEAK(live);
        VF_END("description");
    }
}

/*
 * Configuration (C33)
 */
static void check_destination(int type)
{
    const char* name;
    static const char* const type_names[] = { "stdout", "stderr", "syslog", "glib", "custom" };
    GLogModule module = { name_m, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_VERBOSE, 0, 0 };

    name = gutil_log_get_type();
    VF_CHECK(name && !strcmp(name, type_names[type]), "type query reports current destination");
    nexpect = nsyslog = nglib = 0;
    delivered[2] = 0;
    EX("[m] x\n");
    if (type > 1) nexpect = 0;
    capture();
    gutil_log(&module, GLOG_LEVEL_INFO, "x", 1);
    CHECK_CAPTURED(type == 1 ? stderr : stdout);
    VF_CHECK(nsyslog == (type == 2), "message goes to the selected destination");
    VF_CHECK(nglib == (type == 3), "message goes to the selected destination");
    VF_CHECK(delivered[2] == (type == 4), "message goes to the selected destination");
}
#ifndef INIT
#define INIT 0
#endif
#ifndef BITS
#define BITS 2
#endif
void h_type(void)
{
    /* Initial type, name of the type in any case, default name */
    VF_SPLIT(init, INIT, INIT) VF_SPLIT(k, 0, 3) VF_SPLIT(bits, 0, BITS) VF_SPLIT(def, 0, 1) {
        static const char* const type_names[] = { "stdout", "stderr", "syslog", "glib" };
        static const int masks[] = { 0, 0x3f, 0x15, 0x2a, 1 };
        char type[8];
        int i;

        reset();
        gutil_log_default.name = name_old;
        gutil_log_func = init == 0 ? gutil_log_stdout : init == 1 ? gutil_log_stderr : init == 2 ? gutil_log_syslog : init == 3 ? gutil_log_glib : proc_global;
        check_destination(init);
        for (i = 0; type_names[k][i]; i++) type[i] = type_names[k][i] - ((masks[bits] >> i) & 1 ? 32 : 0);
        type[i] = 0;
        VF_CHECK(gutil_log_set_type(type, def ? name_new : NULL) == TRUE, "known type is accepted");
        VF_CHECK(!strcmp(gutil_log_default.name, def ? name_new : name_old), "default name changes exactly when it's given");
        check_destination(k);
        VF_CHECK(nopen == (k == 2 && init != 2), "system log is opened when it's selected");
        VF_CHECK(nclose == (k != 2 && init == 2), "system log is closed when it's replaced");
        reset();
        if (k == 3 && bits == BITS) VF_REACH("last");
        VF_STOP();
    }
}
void h_type_unknown(void)
{
    static const char* const known[] = { "stdout", "stderr", "syslog", "glib" };
    static const char* const unknown[] = { "", "x", "std", "stdou", "stdoutt", "syslo", "glibc", "gli", "custom", "stdin", " glib", "syslog " };
    VF_SPLIT(init, 0, 4) VF_SPLIT(k, 0, 15) {
        char type[10];
        int i;

        reset();
        gutil_log_func = init == 0 ? gutil_log_stdout : init == 1 ? gutil_log_stderr : init == 2 ? gutil_log_syslog : init == 3 ? gutil_log_glib : proc_global;
        if (k < 4) {
            /* One character is wrong */
            const int pos = (int) vf_range(0, k == 3 ? 3 : 5);
            const char c = (char) vf_u8();
            for (i = 0; known[k][i]; i++) type[i] = known[k][i];
            type[i] = 0;
            VF_STRING(type, i);
            VF_ASSUME(c && lower(c) != type[pos]);
            VF_ASSUME(!(pos == 3 && k < 2));    /* Never mind that stdout and stderr are similar */
            type[pos] = c;
        } else {
            for (i = 0; unknown[k - 4][i]; i++) type[i] = unknown[k - 4][i];
            type[i] = 0;
        }
        VF_CHECK(gutil_log_set_type(type, NULL) == FALSE, "unknown type is refused");
        if (k < 4) VF_STRING_GONE(type);
        check_destination(init);
        reset();
        if (init == 4 && k == 15) VF_REACH("last");
        VF_STOP();
    }
}

/* Any sequence of formats */
#ifndef FIRST
#define FIRST 0
#endif
void h_format(void)
{
    static const char* const formats[] = { NULL, "", "%H", "%M-", default_format };
    VF_SPLIT(f1, FIRST, FIRST) VF_SPLIT(f2, 0, 4) VF_SPLIT(f3, 0, 4) {
        const gint64 live = vf_live();
        const int f[] = { f1, f2, f3 };
        GLogModule module = { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_VERBOSE, 0, 0 };
        int i;

        reset();
        gutil_log_timestamp = TRUE;
        for (i = 0; i < 3; i++) {
            char copy[32];
            const char* format = formats[f[i]];
            if (format) { strcpy(copy, format); gutil_log_set_timestamp_format(copy); copy[0] = '?'; }
            else gutil_log_set_timestamp_format(NULL);
            want_format = f[i] == 0 ? default_format : f[i] == 1 ? NULL : format;
            time_text = f[i] == 1 ? NULL : "T";
            nexpect = 0;
            if (time_text) EX("T");
            EX("x\n");
            capture();
            gutil_log(&module, GLOG_LEVEL_INFO, "x");
            CHECK_CAPTURED(stdout);
        }
        reset();
        VF_NOLEAK(live);
        if (f2 == 4 && f3 == 4) VF_REACH("last");
        VF_STOP();
    }
}

/*
 * Hex dump (C34)
 */
static int nlines;
static char dump_line[MAXTEXT];
static guint8* dump_data;
static gsize dump_size, dump_stop;
static const char* dump_prefix;
static jmp_buf dump_done;
static char hexdigit(guint x, gboolean up) { return x < 10 ? '0' + x : (up ? 'A' : 'a') + x - 10; }

/* Verifies the line and the position */
static void proc_dump(const GLogModule* m, int level, const char* f, va_list va)
{
    const gsize off = 16 * (gsize) nlines;
    gsize i, n;
    int len;
    char c;

    nexpect = 0;
    len = g_vsnprintf(dump_line, sizeof(dump_line), f, va);
    VF_CHECK(off < dump_size, "no more lines than data");
    n = MIN(dump_size - off, 16);
    ex(dump_prefix, strlen(dump_prefix));
    for (i = 4; i > 0; i--) { c = hexdigit((off >> (4 * (i - 1))) & 15, TRUE); ex(&c, 1); }
    EX(": ");
    for (i = 0; i < 16; i++) {
        if (i) EX(" ");
        if (i == 8) EX(" ");
        if (i < n) {
            c = hexdigit(dump_data[off + i] >> 4, FALSE); ex(&c, 1);
            c = hexdigit(dump_data[off + i] & 15, FALSE); ex(&c, 1);
        } else EX("  ");
    }
    EX("    ");
    for (i = 0; i < n; i++) {
        if (i == 8) EX(" ");
        c = dump_data[off + i] >= 0x20 && dump_data[off + i] < 0x7f ? (char) dump_data[off + i] : '.';
        ex(&c, 1);
    }
    VF_CHECK(len >= (int) nexpect, "length of the line");
    for (i = 0; i < nexpect; i++) VF_CHECK(dump_line[i] == expect[i], "line shows prefix, offset and bytes");
    for (i = nexpect; i < (gsize) len; i++) VF_CHECK(dump_line[i] == ' ', "nothing else is there");
    nlines++;
    if (nlines == (int) dump_stop) {
#ifdef VF_CBMC
#ifdef HUGE_DUMP
        VF_REACH("enough lines");
#endif
        VF_STOP();
#else
        longjmp(dump_done, 1);
#endif
    }
}
void h_dump(void)
{
    static const int sizes[] = { LENGTHS };
    VF_SPLIT(k, 0, (int) G_N_ELEMENTS(sizes) - 1) VF_SPLIT(how, 0, 4) {
        const int size = sizes[k];
        guint8* data = g_malloc(size);
        GBytes* bytes = NULL;
        GLogModule module = { "m", NULL, proc_dump, GLOG_LEVEL_MAX, GLOG_LEVEL_INFO, 0, 0 };
        int i;

        reset();
        nlines = 0;
        dump_stop = 0;
        dump_data = data;
        dump_size = size;
        dump_prefix = how == 1 ? "p%s " : "";
        for (i = 0; i < size; i++) data[i] = vf_u8();
        switch (how) {
        case 0: gutil_log_dump(&module, GLOG_LEVEL_INFO, NULL, data, size); break;
        case 1: gutil_log_dump(&module, GLOG_LEVEL_ALWAYS, dump_prefix, data, size); break;
        case 2: gutil_log_dump(&module, GLOG_LEVEL_DEBUG, "x", data, size); break;
        case 3:
            bytes = g_bytes_new_static(data, size);
            gutil_log_dump_bytes(&module, GLOG_LEVEL_INFO, NULL, bytes);
            g_bytes_unref(bytes);
            break;
        case 4:
            bytes = g_bytes_new_static(data, size);
            gutil_log_dump_bytes(&module, GLOG_LEVEL_DEBUG, NULL, bytes);
            gutil_log_dump_bytes(&module, GLOG_LEVEL_INFO, NULL, NULL);
            g_bytes_unref(bytes);
            break;
        }
        VF_CHECK(nlines == ((how == 2 || how == 4) ? 0 : (size + 15) / 16), "every byte is shown");
        g_free(data);
        if (k + 1 == (int) G_N_ELEMENTS(sizes) && how == 4) VF_REACH("last");
        VF_STOP();
    }
}
/* The beginning of something huge */
void h_dump_huge(void)
{
    static const guint64 sizes[] = { G_GUINT64_CONSTANT(0x100000000), G_GUINT64_CONSTANT(0x100000001), G_GUINT64_CONSTANT(0x7fffffff0000), G_GUINT64_CONSTANT(0x80000000), G_GUINT64_CONSTANT(0xffffffff) };
    static guint8 data[32];
    VF_SPLIT(k, 0, 4) {
        GLogModule module = { "m", NULL, proc_dump, GLOG_LEVEL_MAX, GLOG_LEVEL_INFO, 0, 0 };
        reset();
        nlines = 0;
        dump_stop = 2;
        dump_data = data;
        dump_size = sizes[k];
        dump_prefix = "";
        data[0] = vf_u8();
        data[31] = vf_u8();
#ifndef VF_CBMC
        if (!setjmp(dump_done))
#endif
        gutil_log_dump(&module, GLOG_LEVEL_INFO, NULL, data, dump_size);
        VF_CHECK(nlines == 2, "every byte is shown");
        VF_STOP();
    }
}

/*
 * Environment (C33)
 */
#ifndef WHICH
#define WHICH -1
#endif
static const char* const env_names[] = { "GUTIL_LOG_DEFAULT_LEVEL", "GUTIL_LOG_TIMESTAMP", "GUTIL_LOG_TID" };
static const char* const env_const[] = { "5", "1", "+1" };
static char env_text[4];
static int env_ready;
static const char* env_value(int i)
{
    if (WHICH < 0) {
        return env_const[i];
    } else if (i == WHICH) {
        if (!env_ready) {
            int k;
            env_ready = 1;
            for (k = 0; k < SLEN; k++) {
                env_text[k] = (char) vf_u8();
                VF_ASSUME(env_text[k]);
            }
            env_text[k] = 0;
            VF_STRING(env_text, k);
        }
        return env_text;
    } else {
        return NULL;
    }
}
#ifdef VF_CBMC
char* getenv(const char* name)
{
#ifdef ENVIRONMENT
    int i;
    for (i = 0; i < 3; i++) if (!strcmp(name, env_names[i])) return (char*) env_value(i);
#endif
    return NULL;
}
#endif
/* Start of the program: the library has been initialized */
void h_env(void)
{
    int v = 0;
    const char* s;
#ifndef VF_CBMC
    env_ready = 0;
    if (!getenv("VF_STAGE")) {
        char cmd[4096], *args[8];
        int i, n = 0;
        FILE* f = fopen("/proc/self/cmdline", "r");
        size_t len = fread(cmd, 1, sizeof(cmd) - 1, f);
        fclose(f);
        cmd[len] = 0;
        for (s = cmd; s < cmd + len && n < 7; s += strlen(s) + 1) args[n++] = (char*) s;
        args[n] = NULL;
        for (i = 0; i < 3; i++) {
            if (env_value(i)) setenv(env_names[i], env_value(i), 1);
            else unsetenv(env_names[i]);
        }
        setenv("VF_STAGE", "2", 1);
        execv("/proc/self/exe", args);
        abort();
    }
#endif
    s = env_value(0);
    VF_CHECK(gutil_log_default.level == (s && gutil_parse_int(s, 0, &v) && v >= GLOG_LEVEL_INHERIT ? v : GLOG_LEVEL_DEFAULT), "default level is set by the environment");
    s = env_value(1);
    VF_CHECK(gutil_log_timestamp == (s && gutil_parse_int(s, 0, &v) && v > 0), "time stamps are enabled by the environment");
    s = env_value(2);
    VF_CHECK(gutil_log_tid == (s && gutil_parse_int(s, 0, &v) && v > 0), "thread ids are enabled by the environment");
    if (WHICH < 0) {
        VF_CHECK(gutil_log_default.level == 5 && gutil_log_timestamp && gutil_log_tid, "settings take effect");
    }
    VF_END("end");
}
