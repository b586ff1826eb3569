/* redirects the file operations and the wall clock of the persistence code to the file system model of the harness */
#include <stdint.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <time.h>
int h_open(const char *p, int flags, ...); ssize_t h_read(int d, void *b, size_t n); ssize_t h_write(int d, const void *b, size_t n); off_t h_lseek(int d, off_t o, int w); int h_fsync(int d); int h_close(int d); int h_unlink(const char *p); int h_ftruncate(int d, off_t n);
DIR *h_opendir(const char *p); struct dirent *h_readdir(DIR *d); int h_closedir(DIR *d); int h_scandir(const char *dir, struct dirent ***out, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)); int h_fstat(int d, struct stat *s); int h_access(const char *p, int m); time_t h_time(time_t *t);
#define open h_open
#define read h_read
#define write h_write
#define lseek h_lseek
#define fsync h_fsync
#define fdatasync h_fsync
#define close h_close
#define unlink h_unlink
#define ftruncate h_ftruncate
#define opendir h_opendir
#define readdir h_readdir
#define closedir h_closedir
#define scandir h_scandir
#define fstat h_fstat
#define access h_access
#define time h_time
#define getnowdatetime_int h_nowdt
#ifndef H_HARNESS
int64_t h_nowdt(void) __attribute__((weak));
#endif
