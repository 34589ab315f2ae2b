// Scenarios whose results are known, to test the explorer itself.
#include "mc.h"
#include <cstring>
#include <cstdlib>
#include <unistd.h>

// 3*4*5 executions, and every sum seen
MC_SCENARIO(count, 4, 2)
{
    int a = mc::choose(3), b = mc::choose(4), c = mc::choose(5);
    mc::step();
    mc::state(mc::Hash().u(a * 20 + b * 5 + c));
    mc::outcome(mc::Hash().u(a + b + c));
}

// deviations: 1 + 6*2 + C(6,2)*2*2 executions with a budget of 2
MC_SCENARIO(deviations, 1, 0)
{
    mc::budget(2);
    for (int i = 0; i < 6; ++i) mc::deviate(3);
}

// pruning: a counter mod 4 with 6 steps of +1/+2
MC_SCENARIO(pruning, 1, 0)
{
    int v = 0;
    for (int i = 0; i < 6; ++i)
    {
        v = (v + 1 + mc::choose(2)) % 4;
        mc::state(mc::Hash().u(v));
        if (mc::seen(mc::Hash().u(v), 6 - i)) mc::prune();
    }
}

static int wanted() { const char* e = getenv("SELFTEST_FAIL"); return e ? atoi(e) : 0; }

// one bad execution among 1000
MC_SCENARIO(needle, 8, 2)
{
    int a = mc::choose(10), b = mc::choose(10), c = mc::choose(10);
    if (a != 7 || b != 3 || c != 9) return;
    switch (wanted())
    {
        case 1: mc::fail("needle found");
        case 2: { volatile int n = 4; volatile char* p = new char[n]; p[n] = 1; break; }   // sanitizer
        case 3: for (;;) usleep(1000);                                                       // hang
        case 4: abort();
        case 5: { volatile int z = 0x7fffffff; z = z + 1; break; }                           // undefined behaviour
        case 6: for (;;) { const size_t n = 1 << 24; memset(malloc(n), 1, n); }              // memory
    }
}

// state that survives an execution
MC_SCENARIO(stateful, 1, 0)
{
    static int kept = 2;
    const int n = wanted() == 7 && kept++ == 4 ? 3 : 2;
    for (int i = 0; i < 3; ++i) mc::choose(n);
}
