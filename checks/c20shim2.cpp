#include <dlfcn.h>
extern "C" void vfLib(void* ctx, const char* path, int init);
static const char* self() { Dl_info i; dladdr((void*)&self, &i); return i.dli_fname; }
extern "C" void initializePlugins(void* c) { vfLib(c, self(), 1); }
extern "C" void releasePlugins(void* c) { vfLib(c, self(), 0); }
