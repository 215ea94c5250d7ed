/* The operating system of an in-memory database: nothing. */
#include "sqlite3.h"
#include <string.h>
static int xOpen(sqlite3_vfs *v, const char *n, sqlite3_file *f, int flags, int *out) { return SQLITE_CANTOPEN; }
static int xDelete(sqlite3_vfs *v, const char *n, int s) { return SQLITE_OK; }
static int xAccess(sqlite3_vfs *v, const char *n, int flags, int *out) { *out = 0; return SQLITE_OK; }
static int xFull(sqlite3_vfs *v, const char *n, int len, char *out) { int i; for (i = 0; i < len - 1 && n[i]; i++) out[i] = n[i]; out[i] = 0; return SQLITE_OK; }
static int xRandom(sqlite3_vfs *v, int n, char *out) { for (int i = 0; i < n; i++) out[i] = (char)(i * 37 + 11); return n; }
static int xSleep(sqlite3_vfs *v, int us) { return us; }
static int xTime(sqlite3_vfs *v, double *t) { *t = 2440587.5; return SQLITE_OK; }
static int xTime64(sqlite3_vfs *v, sqlite3_int64 *t) { *t = 210866760000000LL; return SQLITE_OK; }
static int xErr(sqlite3_vfs *v, int n, char *out) { return 0; }
static sqlite3_vfs vfs = { 2, 16, 64, 0, "none", 0, xOpen, xDelete, xAccess, xFull, 0, 0, 0, 0, xRandom, xSleep, xTime, xErr, xTime64 };
int sqlite3_os_init(void) { return sqlite3_vfs_register(&vfs, 1); }
int sqlite3_os_end(void) { return SQLITE_OK; }
