/* The C-library seam of the simulated disk.
 *
 * Preloaded into the simulator. Reads and opens of files below an armed path - by whatever code, also by libxml2,
 * which never passes through Python - are shortened, interrupted or failed as armed. Disarmed (the default) every
 * call is forwarded unchanged.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

struct fault { int site, nth, code, sticky; };   /* site: 0 open, 1 read */

static char prefix[1024];
static int armed, nsizes, nfaults, sizes[64];
static struct fault faults[16];
static long counts[2], shorts, fired[16], late[16], bytes;

static ssize_t (*real_read)(int, void *, size_t);
static int (*real_open)(const char *, int, ...);
static int (*real_open64)(const char *, int, ...);
static int (*real_openat)(int, const char *, int, ...);

__attribute__((constructor)) static void setup(void)
{
    real_read = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    real_open = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
    real_open64 = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
    real_openat = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, "openat");
}

void vp_arm(const char *path, const int *size, int nsize, const struct fault *flt, int nflt)
{
    strncpy(prefix, path, sizeof(prefix) - 1);
    nsizes = nsize > 64 ? 64 : nsize;
    memcpy(sizes, size, nsizes * sizeof(int));
    nfaults = nflt > 16 ? 16 : nflt;
    memcpy(faults, flt, nfaults * sizeof(struct fault));
    memset(counts, 0, sizeof(counts));
    memset(fired, 0, sizeof(fired));
    memset(late, 0, sizeof(late));
    shorts = bytes = 0;
    armed = 1;
}

void vp_disarm(void) { armed = 0; }
long vp_count(int site) { return counts[site]; }
long vp_fired(int num) { return fired[num]; }
long vp_late(int num) { return late[num]; }
long vp_shorts(void) { return shorts; }
long vp_bytes(void) { return bytes; }

static int below(const char *path) { return strncmp(path, prefix, strlen(prefix)) == 0; }

static int mine(int fd)
{
    char link[64], path[2048];
    int saved = errno;
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    ssize_t len = readlink(link, path, sizeof(path) - 1);
    errno = saved;
    if (len < 0) return 0;
    path[len] = 0;
    return below(path);
}

/* Nothing is left to be read. */
static int at_end(int fd)
{
    struct stat st;
    int saved = errno;
    off_t pos = lseek(fd, 0, SEEK_CUR);
    int res = pos >= 0 && fstat(fd, &st) == 0 && pos >= st.st_size;
    errno = saved;
    return res;
}

/* Errno to fail with, or 0; a failure after the last byte has arrived is counted apart. */
static int due(int site, int fd)
{
    long idx = counts[site]++;
    for (int num = 0; num < nfaults; num++) {
        if (faults[num].site != site) continue;
        if (idx == faults[num].nth || (faults[num].sticky && idx > faults[num].nth)) {
            if (fd >= 0 && at_end(fd)) late[num]++; else fired[num]++;
            return faults[num].code;
        }
    }
    return 0;
}

ssize_t read(int fd, void *buf, size_t size)
{
    if (!armed || !mine(fd)) return real_read(fd, buf, size);
    long idx = counts[1];
    int code = due(1, fd);
    if (code) { errno = code; return -1; }
    if (nsizes && sizes[idx % nsizes] > 0 && (size_t)sizes[idx % nsizes] < size) {
        size = sizes[idx % nsizes];
        shorts++;
    }
    ssize_t got = real_read(fd, buf, size);
    if (got > 0) bytes += got;
    return got;
}

#define OPEN_HEAD \
    int mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    if (armed && below(path)) { int code = due(0, -1); if (code) { errno = code; return -1; } }

int open(const char *path, int flags, ...) { OPEN_HEAD return real_open(path, flags, mode); }
int open64(const char *path, int flags, ...) { OPEN_HEAD return real_open64(path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { OPEN_HEAD return real_openat(dir, path, flags, mode); }
