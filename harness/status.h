// Some entry points report success through their return value; a build in which
// one of them returns nothing counts as "always succeeds".
#pragma once
template <class T> struct Ret { static int v(T t) { return (int)t; } };
struct Probe {};
template <class T> static int operator,(T t, Probe) { return (int)t; }
static inline int as_status(Probe) { return 1; }
static inline int as_status(int s) { return s; }
#define VOX_STATUS(call) as_status(((call), Probe()))
