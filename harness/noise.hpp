// Independent clients of the library with other element types, see noise.cpp.
#ifndef VERIF_NOISE_HPP
#define VERIF_NOISE_HPP
namespace hv {
struct Noise;
Noise* noise_new();
void noise_step(Noise*);          // may be called from any execution context
void noise_delete(Noise*);
void noise_threads(int n);        // other threads that use the library for themselves
void noise_threads_stop();
void noise_crowd();               // many coroutines at once
}
#endif
