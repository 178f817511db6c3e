// Controlled scheduler for code compiled with -fsanitize=thread instrumentation (own runtime, lib/mcrt.cpp): stateless exploration of thread interleavings.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace mc
{
struct Options { int preemptions = 2; bool delays = false; /* every choice other than the first counts as a preemption */ long maxSchedules = 1000000; long maxSteps = 200000; };
struct Execution { std::string outcome, race, error; int status = 0; std::string schedule; long points = 0; };
// Explores every schedule of `run` (executed in a forked child under the scheduler) with at most `preemptions` preemptions; `judge` sees every execution and returns false to stop. Returns the number of schedules.
long explore(const Options& o, const std::function<std::string()>& run, const std::function<bool(const Execution&)>& judge);
Execution replay(const std::function<std::string()>& run, const std::string& schedule);
extern long totalPoints, maxPoints, preempted; extern bool complete; extern bool ioPoints; // output calls are scheduling points too
extern std::vector<std::string> ignoreRacesIn; // accesses made in functions with these names are not judged (the program under simulation races itself)
 // complete: all schedules within the bound were executed
}
