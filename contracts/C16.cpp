// C16: what limits low priority polling: the time balance and the rate limit
#include "vf.h"
#include "poll_plan.h"
using namespace std::chrono;
using time_p = steady_clock::time_point;
static milliseconds AnyMs() { return milliseconds(int64_t(__vf_u32())); }
VF_HARNESS(balance)
{
    auto lag = AnyMs(), max = AnyMs();
    TTotalTimeBalancer b(lag, max);
    VF_ASSERT(b.GetTotalTime() == milliseconds(0), "the balance starts at zero");
    // reach an arbitrary state
    auto start = AnyMs();
    VF_REQUIRES(start <= max);
    bool neg = vf_bool();
    if (neg)
        b.DecrementTotalTime(start);
    else
        b.IncrementTotalTime(start);
    int64_t t = neg ? -start.count() : start.count();
    VF_ASSERT(b.GetTotalTime().count() == t, "any balance within the limits can be reached");
    VF_ASSERT(b.ShouldDecrement() == (t >= lag.count()), "low priority's turn comes when the threshold is reached");
    VF_ASSERT(b.GetTimeToDecrement().count() == (t > lag.count() ? t - lag.count() : 0), "time owed to low priority");
    auto d = AnyMs();
    bool up = vf_bool();
    if (up)
        b.IncrementTotalTime(d);
    else
        b.DecrementTotalTime(d);
    int64_t u = up ? t + d.count() : t - d.count();
    if (u > max.count())
        u = max.count();
    if (u < -max.count())
        u = -max.count();
    VF_ASSERT(b.GetTotalTime().count() == u, "time is added and subtracted within the limits");
    b.Reset();
    VF_ASSERT(b.GetTotalTime() == milliseconds(0) && b.ShouldDecrement() == (lag.count() <= 0), "reset");
    __vf_cover("balanced");
}
typedef TScheduler<uint32_t> Scheduler;
VF_HARNESS(scheduler)
{
    auto lag = AnyMs();
    Scheduler s(lag);
    VF_ASSERT(s.GetTotalTime() == milliseconds(0) && s.IsEmpty(), "a new scheduler");
    auto start = AnyMs();
    VF_REQUIRES(start <= 2 * lag);
    bool neg = vf_bool();
    s.UpdateSelectionTime(start, neg ? TPriority::Low : TPriority::High);
    int64_t t = neg ? -start.count() : start.count(), max = 2 * lag.count();
    VF_ASSERT(s.GetTotalTime().count() == t, "high priority adds, low priority subtracts");
    auto d = AnyMs();
    bool up = vf_bool();
    s.UpdateSelectionTime(d, up ? TPriority::High : TPriority::Low);
    int64_t u = up ? t + d.count() : t - d.count();
    u = u > max ? max : u < -max ? -max : u;
    VF_ASSERT(s.GetTotalTime().count() == u, "the balance stays within twice the lag");
    s.ResetLoadBalancing();
    VF_ASSERT(s.GetTotalTime() == milliseconds(0), "reset");
    __vf_cover("balanced");
}
// Entries go to the queue of their priority; deadlines, membership and removal over both queues.
VF_HARNESS(two_queues)
{
    Scheduler s(milliseconds(1000));
    uint32_t a = __vf_u32(), b = __vf_u32(), x = __vf_u32();
    auto ta = time_p(nanoseconds(int64_t(__vf_u64()))), tb = time_p(nanoseconds(int64_t(__vf_u64())));
    bool ha = vf_bool(), hb = vf_bool(), two = vf_bool();
    VF_REQUIRES(a != b);
    auto none = time_p::max();
    s.AddEntry(a, ta, ha ? TPriority::High : TPriority::Low);
    if (two)
        s.AddEntry(b, tb, hb ? TPriority::High : TPriority::Low);
    else
        tb = none;
    auto first = [&](bool high) {
        auto r = none;
        if (ha == high)
            r = ta;
        if (two && hb == high && tb < r)
            r = tb;
        return r;
    };
    VF_ASSERT(!s.IsEmpty(), "not empty");
    VF_ASSERT(s.GetHighPriorityDeadline() == first(true), "first deadline of the high priority entries");
    VF_ASSERT(s.GetLowPriorityDeadline() == first(false), "first deadline of the low priority entries");
    VF_ASSERT(s.GetDeadline() == std::min(first(true), first(false)), "first deadline of all");
    VF_ASSERT(s.Contains(x) == (x == a || (two && x == b)), "contains");
    s.Remove(x);
    bool left = x != a || (two && x != b);
    VF_ASSERT(s.IsEmpty() == !left, "removed");
    VF_ASSERT(!s.Contains(x) && s.Contains(a) == (x != a) && s.Contains(b) == (two && x != b), "exactly the named entry is removed");
    __vf_cover("queues");
}
// Rate limit: one step from every reachable state.
VF_HARNESS(rate)
{
    size_t limit = __vf_u64();
    TRateLimiter r(limit);
    const int64_t s = 1000000000;
    // The window begins at a full second (of the first item of it) and ends one second later.
    int64_t now = int64_t(__vf_u64() >> 2);
    VF_REQUIRES(now > s);
    auto at = [](int64_t t) { return time_p(nanoseconds(t)); };
    VF_ASSERT(!r.IsOverLimit(at(now)), "no items, not over the limit");
    r.NewItem(at(now));
    VF_ASSERT(r.IsOverLimit(at(now)) == false, "one item is not over any limit");
    if (limit == 0) {
        VF_ASSERT(!r.IsOverLimit(at(__vf_u64() >> 2)), "no limit");
        return;
    }
    auto start = r.GetStartTime();
    VF_ASSERT(start <= at(now) && at(now) - start < seconds(1), "the window begins within the second of its first item");
    // every reachable state of the limiter: any number of items since the window began
    size_t count = 1 + __vf_size(VF_MAX);
    for (size_t i = 1; i < count; ++i)
        r.NewItem(at(now));
    VF_ASSERT(r.GetStartTime() == start && r.IsOverLimit(at(now)) == (count > limit), "items of one moment belong to one window");
    // one more item, at any later time
    int64_t t = int64_t(__vf_u64() >> 2);
    VF_REQUIRES(t >= now);
    bool within = at(t) - start <= seconds(1);
    VF_ASSERT(r.IsOverLimit(at(t)) == (within && count > limit), "over the limit exactly within the window, with more items than the limit");
    r.NewItem(at(t));
    if (within) {
        ++count;
        VF_ASSERT(r.GetStartTime() == start, "the window stays");
    } else {
        count = 1;
        start = r.GetStartTime();
        VF_ASSERT(start <= at(t) && at(t) - start < seconds(1), "a new window begins with the first item after the old one");
    }
    VF_ASSERT(r.IsOverLimit(at(t)) == (count > limit), "over the limit after more items than the limit");
    __vf_cover("limited");
}
