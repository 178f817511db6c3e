// C26: a plugin that says its name when it is loaded and when a kernel starts
#include "core/Plugin.h"
#include "core/Context.h"
#include <cstdio>
using namespace oclgrind;
#ifndef NAME
#define NAME "A"
#endif
struct P : Plugin { P(const Context* c) : Plugin(c) {} void kernelBegin(const KernelInvocation*) override { printf("\nPLUGIN-%s kernel\n", NAME); fflush(stdout); } };
extern "C" { void initializePlugins(Context* c) { printf("\nPLUGIN-%s\n", NAME); fflush(stdout); c->registerPlugin(new P(c)); } void releasePlugins(Context*) {} }
