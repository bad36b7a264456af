/* Forced into the CLI translation units (cli/*.c) with -include: every system
 * resource the CLI touches (spec file, trace file, stdin, stdout, exit status)
 * is replaced by the simulator's in-memory world. Shipped sources unchanged. */
#ifndef DST_SEAM_H
#define DST_SEAM_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/stat.h>

extern FILE *dst_stdin, *dst_stdout, *dst_stderr;
FILE *dst_fopen(const char *, const char *);
int dst_fclose(FILE *);
int dst_open(const char *, int, ...);
int dst_close(int);
int dst_access(const char *, int);
int dst_fstat(int, struct stat *);
int dst_stat(const char *, struct stat *);
ssize_t dst_read(int, void *, size_t);
off_t dst_lseek(int, off_t, int);
void *dst_mmap(void *, size_t, int, int, int, off_t);
int dst_munmap(void *, size_t);
void dst_perror(const char *);
void dst_exit(int) __attribute__((noreturn));

#undef stdin
#undef stdout
#undef stderr
#define stdin dst_stdin
#define stdout dst_stdout
#define stderr dst_stderr
#define fopen(p, m) dst_fopen(p, m)
#define fclose(f) dst_fclose(f)
#define open(...) dst_open(__VA_ARGS__)
#define close(fd) dst_close(fd)
#define access(p, m) dst_access(p, m)
#define fstat(fd, st) dst_fstat(fd, st)
#define read(fd, b, n) dst_read(fd, b, n)
#define lseek(fd, o, w) dst_lseek(fd, o, w)
#define mmap(a, l, p, f, fd, o) dst_mmap(a, l, p, f, fd, o)
#define munmap(a, l) dst_munmap(a, l)
#define perror(s) dst_perror(s)
#define exit(c) dst_exit(c)
#define printf(...) fprintf(dst_stdout, __VA_ARGS__)
#define puts(s) (fputs((s), dst_stdout), fputc('\n', dst_stdout))
#define putchar(c) fputc((c), dst_stdout)
#define main r2u2_cli_main
#endif
