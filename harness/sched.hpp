// sched.hpp - a controlled scheduler for small multi-threaded programs.
//
// The program is compiled with -fsanitize=thread, but linked with the functions of sched.cpp instead of the
// sanitizer runtime: every load, store and atomic operation of the program (with all header code it uses)
// calls the scheduler, which runs the threads as fibers of one process, decides at these points who goes on,
// and detects conflicting accesses that are not ordered (vector clocks; atomic operations are taken as
// sequentially consistent), accesses to freed memory, and double frees.
#ifndef SCHED_HPP
#define SCHED_HPP
namespace sched {
enum Mode { AT_SYNC, AT_ALL };                       // switch at atomic operations only, or at every access to memory that is not the thread's own
enum { MAXTHREADS = 3 };
typedef int (*Choose)(int n, void* arg);             // may return -1: choose no more in this execution
void run(int n, void (*body)(int thread, void* arg), void* arg, Mode mode, int preemptions, Choose choose, void* choose_arg);
const char* violation();                             // of the latest run, or null
unsigned long long points();                         // of the latest run: places where a switch was possible
unsigned long long accesses();                       // of the latest run: accesses checked
void doing(const char* what);                        // the operation the current thread is about to do
bool running();
}
#endif
