/* Forced into the C program that C2PO generates (-include): its standard input arrives in the pieces the plan chose. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/types.h>
static size_t dst_piece(void) {
    static const char *s = 0; static size_t last = 1 << 16;
    if (!s) s = getenv("DST_PIECES") ? getenv("DST_PIECES") : "";
    if (*s) { char *e; last = strtoul(s, &e, 10); s = *e ? e + 1 : e; }
    return last;
}
static ssize_t dst_read(int fd, void *b, size_t n) {
    size_t k = dst_piece();
    return read(fd, b, n < k ? n : k);
}
static ssize_t dst_cookie_read(void *c, char *b, size_t n) { (void)c; return dst_read(0, b, n); }
static FILE *dst_in(void) {
    static FILE *f = 0;
    if (!f) { cookie_io_functions_t io = { dst_cookie_read, 0, 0, 0 }; f = fopencookie(0, "r", io); }
    return f;
}
#undef stdin
#define stdin dst_in()
#define read dst_read
