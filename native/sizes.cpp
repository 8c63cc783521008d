// Coroutine-functions of every size (in words): does the captured state, and do
// locals, survive the switches?  Prints a line and returns 3 if not.
#include <cstdio>
#include <unistd.h>
#include <csignal>
#include <boost/coroutine2/all.hpp>
using boost::coroutines2::coroutine;

static int words;
static void bad(const char * kind, const char * what) {
    std::printf("FAIL C17 %s of a coroutine-function with %d captured words changed during a switch (%s coroutine)\n", what, words, kind);
    std::fflush(stdout);
    ::_exit(3);
}
static void on_signal(int) {
    char b[200];
    int n = std::snprintf(b, sizeof b, "CRASH - fatal signal with a coroutine-function of %d captured words\n", words);
    if (::write(1, b, n)) { }
    ::_exit(4);
}
template< int N > struct Fn {
    unsigned long w[N];
    Fn() { for (int i = 0; i < N; ++i) w[i] = 0x5a5a0000ul + i; }
    void check(const char * kind, const char * what) const { for (int i = 0; i < N; ++i) if (w[i] != 0x5a5a0000ul + i) bad(kind, what); }
    void operator()(coroutine< int >::push_type & out) {
        check("pull", "the captured state");
        Fn local(*this);
        for (int i = 0; i < 3; ++i) { out(i); check("pull", "the captured state"); local.check("pull", "local state"); }
    }
    void operator()(coroutine< int >::pull_type & in) {
        check("push", "the captured state");
        Fn local(*this);
        for (; in; in()) { if (in.get() < 0) bad("push", "a value"); check("push", "the captured state"); local.check("push", "local state"); }
    }
};
template< int N > struct All {
    static void run() {
        All< N - 1 >::run();
        words = N;
        {
            coroutine< int >::pull_type p((Fn< N >()));
            for (int i = 0; p; p(), ++i) if (p.get() != i) bad("pull", "a value");
        }
        {
            coroutine< int >::push_type p((Fn< N >()));
            for (int i = 0; i < 3; ++i) p(i);
        }
    }
};
template<> struct All< 0 > { static void run() { } };

int main() {
    std::signal(SIGSEGV, on_signal);
    std::signal(SIGABRT, on_signal);
    std::signal(SIGBUS, on_signal);
    All< 40 >::run();
}
