/* P23: preloaded into the table generator; the n-th read of a regular file and all after it fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

static long reads = 0, fail_from = -1;

__attribute__((constructor)) static void setup(void)
{
    char const* s = getenv("READ_FAULT");
    if (s)
        fail_from = atol(s);
}
__attribute__((destructor)) static void done(void)
{
    char const* s = getenv("READ_FAULT_REPORT");
    FILE* f = s ? fopen(s, "w") : NULL;
    if (f)
    {
        fprintf(f, "%ld", reads);
        fclose(f);
    }
}
ssize_t read(int fd, void* buf, size_t n)
{
    static ssize_t (*next)(int, void*, size_t);
    struct stat st;
    if (!next)
        next = (ssize_t(*)(int, void*, size_t)) dlsym(RTLD_NEXT, "read");
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && ++reads > fail_from && fail_from >= 0)
    {
        errno = EIO;
        return -1;
    }
    return next(fd, buf, n);
}
