// Schedule control: delays a thread between its last test of a condition and its going to sleep on it
#pragma once
namespace vp { void sched_delay(int microseconds); }
