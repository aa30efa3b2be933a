// Linked into every library image (compiled without instrumentation): start-up / shutdown entry points and C entry
// points for the C++ lock object.
#include <sys/types.h>
#include "rwlockrcsv.h"

typedef void (*initfn)(int, char**, char**);
extern "C" {
extern initfn __attribute__((weak, visibility("hidden"))) __start_flck_initarr[];
extern initfn __attribute__((weak, visibility("hidden"))) __stop_flck_initarr[];
extern initfn __attribute__((weak, visibility("hidden"))) __start_flck_finiarr[];
extern initfn __attribute__((weak, visibility("hidden"))) __stop_flck_finiarr[];
void shim_run_init(void) { if(__start_flck_initarr) for(initfn* p = __start_flck_initarr; p < __stop_flck_initarr; ++p) if(*p) (*p)(0, 0, 0); }
void shim_run_fini(void) { if(__start_flck_finiarr) for(initfn* p = __stop_flck_finiarr; p > __start_flck_finiarr; ) { --p; if(*p) (*p)(0, 0, 0); } }
void* shim_rcsv_new(int fd, off_t off, size_t len) { return new FLRwlRcsv(fd, off, len); }
void* shim_rcsv_newl(int fd, off_t off, size_t len, int is_read) { return new FLRwlRcsv(fd, off, len, is_read != 0); }
int shim_rcsv_lock(void* o, int is_read) { FLRwlRcsv* p = (FLRwlRcsv*)o; switch(is_read) { case 0: return p->WriteLock(); case 1: return p->ReadLock(); case 2: return p->Lock(false); case 3: return p->Lock(true); default: return p->Lock(); } }
int shim_rcsv_relock(void* o, int fd, off_t off, size_t len, int is_read) { return ((FLRwlRcsv*)o)->Lock(fd, off, len, is_read != 0); }
int shim_rcsv_unlock(void* o) { return ((FLRwlRcsv*)o)->Unlock(); }
void shim_rcsv_del(void* o) { delete (FLRwlRcsv*)o; }
char __attribute__((weak)) fullock_commit_hash[] = "sim";
}
