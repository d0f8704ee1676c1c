#define NATIVE 1
#include "rpc_gen.c"
/* The round-trip contract of every RPC message, executed on the compiled code. */
int main(int argc, char **argv)
{
    nat_init(argc, argv); int k = 0;
    while (nat_time_left(1.0)) { int i = k < N_RT ? k : rnd(N_RT); all_rt[i](); if (k++ % 40000 == 0) SAMPLE("%s", nat_trace); }
    return nat_done();
}
