/* I/O channels on top of read() and close() of the harness */
#include "vf.h"
#include "vf_loop.h"
#include <errno.h>
#include <unistd.h>

typedef struct { int refs; int fd; gboolean open; gboolean close_on_unref; gboolean binary; } VfChannel;
#define C(c) ((VfChannel*)(c))

#ifndef VF_DEFINES_FD
/* Harnesses with descriptors have their own */
ssize_t read(int fd, void* buf, size_t n) { errno = EBADF; return -1; }
int close(int fd) { errno = EBADF; return -1; }
GIOCondition vf_fd_condition(int fd) { return 0; }
#endif

GIOCondition vf_channel_condition(GIOChannel* ch) { return C(ch)->open ? vf_fd_condition(C(ch)->fd) : G_IO_NVAL; }
GIOChannel* g_io_channel_unix_new(int fd)
{
    VfChannel* c = VF_NEW(VfChannel);
    c->refs = 1;
    c->fd = fd;
    c->open = TRUE;
    return (GIOChannel*)c;
}
gint g_io_channel_unix_get_fd(GIOChannel* ch) { return C(ch)->fd; }
GIOChannel* g_io_channel_ref(GIOChannel* ch)
{
    __CPROVER_assert(ch != NULL, "GLib critical warning: channel");
    C(ch)->refs++;
    return ch;
}
GIOStatus g_io_channel_shutdown(GIOChannel* ch, gboolean flush, GError** err)
{
    __CPROVER_assert(ch != NULL, "GLib critical warning: channel");
    C(ch)->open = FALSE;
    C(ch)->close_on_unref = FALSE;
    return close(C(ch)->fd) < 0 ? G_IO_STATUS_ERROR : G_IO_STATUS_NORMAL;
}
void g_io_channel_unref(GIOChannel* ch)
{
    __CPROVER_assert(ch != NULL, "GLib critical warning: channel");
    __CPROVER_assert(C(ch)->refs > 0, "channel is alive");
    if (!--C(ch)->refs) {
        if (C(ch)->close_on_unref) g_io_channel_shutdown(ch, TRUE, NULL);
        g_free(ch);
    }
}
void g_io_channel_set_close_on_unref(GIOChannel* ch, gboolean on) { C(ch)->close_on_unref = on; }
gboolean g_io_channel_get_close_on_unref(GIOChannel* ch) { return C(ch)->close_on_unref; }
GIOStatus g_io_channel_set_encoding(GIOChannel* ch, const gchar* e, GError** err)
{
    __CPROVER_assert(!e, "model: binary channel");
    C(ch)->binary = TRUE;
    return G_IO_STATUS_NORMAL;
}
void g_io_channel_set_buffered(GIOChannel* ch, gboolean on)
{
    __CPROVER_assert(C(ch)->binary, "GLib critical warning: channel without encoding");
    __CPROVER_assert(!on, "model: unbuffered channel");
}
GIOStatus g_io_channel_set_flags(GIOChannel* ch, GIOFlags f, GError** err) { return G_IO_STATUS_NORMAL; }
GQuark g_io_channel_error_quark(void) { return 1002; }
GIOStatus g_io_channel_read_chars(GIOChannel* ch, gchar* buf, gsize count, gsize* nread, GError** err)
{
    ssize_t n;
    __CPROVER_assert(ch != NULL && C(ch)->open, "GLib critical warning: readable channel");
    __CPROVER_assert(!err || !*err, "GLib critical warning: error is set");
    n = read(C(ch)->fd, buf, count);
    if (nread) *nread = n > 0 ? n : 0;
    if (n > 0) return G_IO_STATUS_NORMAL;
    if (n == 0) return G_IO_STATUS_EOF;
    if (errno == EAGAIN) return G_IO_STATUS_AGAIN;
    g_set_error_literal(err, g_io_channel_error_quark(), G_IO_CHANNEL_ERROR_FAILED, "error");
    return G_IO_STATUS_ERROR;
}
