/*
 * A single kernel descriptor under control of the harness: it becomes
 * readable when told so, reads return what is set, and closes are counted.
 */
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>

static int kfd = -1;            /* Current one */
static int kfd_opened, kfd_closed;
static guint8 kfd_data[320];
static int kfd_size;            /* What read() is going to return, or minus error code */
static int kfd_reads;
static GIOCondition kfd_condition;

#ifdef VF_CBMC
static int kfd_open(void)
{
    kfd_opened++;
    kfd_condition = 0;
    return kfd = 5 + kfd_opened;
}
static void kfd_set(GIOCondition c) { kfd_condition = c; }
GIOCondition vf_fd_condition(int fd) { return fd == kfd ? kfd_condition : G_IO_NVAL; }
int close(int fd)
{
    VF_CHECK(fd >= 0 && fd == kfd, "no descriptor is closed twice");
    kfd_closed++;
    kfd = -1;
    return 0;
}
static void kfd_drained(void) { kfd_condition &= ~G_IO_IN; }
#else
#include <stdarg.h>
static int kfd_other = -1;
static int kfd_open(void)
{
    int p[2];
    if (pipe(p) < 0) abort();
    kfd_opened++;
    kfd_other = p[1];
    return kfd = p[0];
}
static void kfd_set(GIOCondition c)
{
    if (c & G_IO_IN) { if (write(kfd_other, "x", 1) != 1) abort(); }
    if (c & G_IO_HUP) { syscall(SYS_close, kfd_other); kfd_other = -1; }
}
int close(int fd)
{
    if (fd == kfd && fd >= 0) {
        kfd_closed++;
        kfd = -1;
        if (kfd_other >= 0) syscall(SYS_close, kfd_other);
        kfd_other = -1;
    }
    return (int) syscall(SYS_close, fd);
}
static void kfd_drained(void) { char c; syscall(SYS_read, kfd, &c, 1); }
#endif

static ssize_t kfd_read(void* buf, size_t n);
ssize_t read(int fd, void* buf, size_t n)
{
#ifdef VF_CBMC
    VF_CHECK(fd >= 0 && fd == kfd, "open descriptor is read");
#else
    if (fd != kfd) return syscall(SYS_read, fd, buf, n);
#endif
    kfd_reads++;
    kfd_drained();
    return kfd_read(buf, n);
}
