// Interface between a schedule explorer (parent) and one controlled execution (child).
#ifndef RT_SCHED_H
#define RT_SCHED_H
#include <cstdint>
#include <cstddef>
extern "C" {
enum { RT_MAXPTS = 60000 };
struct RtShm {
    // prescribed choices
    int prefix_len;
    uint8_t prefix[RT_MAXPTS];
    int spurious;            // spurious wake-ups allowed per execution
    int atomics;             // atomic operations are scheduling points
    long max_steps;
    int check_races;
    int delay;               // count every departure from the default schedule, not only preemptions
    // result
    int npts;                // choice points met (with at least two options)
    uint8_t nopt[RT_MAXPTS];
    uint8_t cost[RT_MAXPTS]; // bit i: option i costs one preemption
    uint8_t chosen[RT_MAXPTS];
    long steps;              // synchronisation operations performed
    long accesses;           // memory accesses checked
    int threads;
    int status;              // 0 not finished, 1 finished, 2 failed
    int overflow;
    uint64_t outcome;
    char msg[2000];
    char trace[6000];
};
void rt_begin(RtShm *s);                 // this thread becomes thread 0 of a controlled execution
void rt_end();                           // ends the execution (does not return)
void rt_fail(const char *msg);           // reports a violation and ends the execution
void rt_outcome(uint64_t h);
int rt_self();
void rt_quiet(int q);                    // while set, the default schedule is followed
void rt_point();                         // an extra scheduling point
}
#endif
