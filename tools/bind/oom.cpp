// Linked into the extension of a language package: fails the n-th allocation that the extension itself asks for (operator new, and the
// Python objects it makes), while armed and outside of the callbacks. Everything else of the interpreter keeps its memory.
#include <cstddef>
#include <new>
// The sanitizer's operator new ends the process where a real one throws: what is too large for the sandbox is refused here
namespace { constexpr std::size_t most = std::size_t(1) << 30; }
extern "C" {
int sim_oom_fails(void) __attribute__((weak)); // shim.c, preloaded
static bool fails() { return sim_oom_fails && sim_oom_fails(); }
void *__real__Znwm(std::size_t); void *__real__ZnwmSt11align_val_t(std::size_t, std::align_val_t); void *__real__Znam(std::size_t);
void *__wrap__Znwm(std::size_t n) { if (n > most || fails()) throw std::bad_alloc(); return __real__Znwm(n); }
void *__wrap__Znam(std::size_t n) { if (n > most || fails()) throw std::bad_alloc(); return __real__Znam(n); }
void *__wrap__ZnwmSt11align_val_t(std::size_t n, std::align_val_t a) { if (n > most || fails()) throw std::bad_alloc(); return __real__ZnwmSt11align_val_t(n, a); }
#ifdef SIM_PY
void *PyErr_NoMemory(void);
void *__real_PyBytes_FromStringAndSize(const char *, std::ptrdiff_t); void *__real_PyFloat_FromDouble(double); void *__real_PyLong_FromLong(long); void *__real_PyLong_FromUnsignedLong(unsigned long);
void *__wrap_PyBytes_FromStringAndSize(const char *s, std::ptrdiff_t n) { return fails() ? PyErr_NoMemory() : __real_PyBytes_FromStringAndSize(s, n); }
void *__wrap_PyFloat_FromDouble(double v) { return fails() ? PyErr_NoMemory() : __real_PyFloat_FromDouble(v); }
void *__wrap_PyLong_FromLong(long v) { return fails() ? PyErr_NoMemory() : __real_PyLong_FromLong(v); }
void *__wrap_PyLong_FromUnsignedLong(unsigned long v) { return fails() ? PyErr_NoMemory() : __real_PyLong_FromUnsignedLong(v); }
#endif
}
