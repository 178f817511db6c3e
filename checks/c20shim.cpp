extern "C" void vfInit(void*); extern "C" void vfExit(void*);
extern "C" void initializePlugins(void* c) { vfInit(c); }
extern "C" void releasePlugins(void* c) { vfExit(c); }
