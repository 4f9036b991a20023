// C15: which due entries one scheduling step selects, in which order and under which limits. The two queues are replaced by the contract
// of std::priority_queue: an arbitrary number of entries, the earliest deadline first (C14: real queue).
#include "vf.h"
#include <chrono>
#include <queue>
using namespace std::chrono;
using time_p = steady_clock::time_point;
struct Entry { int Kind; uint32_t Id; };
inline bool operator==(const Entry& a, const Entry& b) { return a.Kind == b.Kind && a.Id == b.Id; }
struct ById { bool operator()(const Entry& a, const Entry& b) const { return a.Id > b.Id; } };
static time_p AnyTime() { return time_p(nanoseconds(int64_t(__vf_u64() >> 2))); } // up to 146 years
// contract of std::priority_queue: the state of the two queues
struct Ghost
{
    bool Empty = true;
    uint32_t Id = 0;
    time_p Deadline;
    size_t Pops = 0;
};
static Ghost Q[2];
static void Arb(Ghost& q)
{
    q.Empty = !vf_bool();
    q.Id = __vf_u32();
    q.Deadline = AnyTime();
}
template<class T> class std::priority_queue<T, std::vector<T>, std::less<T>>
{
    mutable T Top;
public:
    using value_type = T;
    using size_type = size_t;
    using const_reference = const T&;
    priority_queue() { Top.Data.Kind = -1; }
    bool empty() const { return Q[Top.Data.Kind].Empty; }
    size_t size() const { return Q[Top.Data.Kind].Empty ? 0 : 1 + __vf_size(1000); }
    const T& top() const
    {
        auto& q = Q[Top.Data.Kind];
        VF_ASSERT(!q.Empty, "the top of an empty queue is not used");
        Top.Data.Id = q.Id;
        Top.Deadline = q.Deadline;
        return Top;
    }
    void pop()
    {
        auto& q = Q[Top.Data.Kind];
        VF_ASSERT(!q.Empty, "nothing is taken from an empty queue");
        ++q.Pops;
        auto d = q.Deadline;
        Arb(q);
        VF_REQUIRES(q.Deadline >= d);
    }
    template<class... A> void emplace(A&&... a) { push(T{std::forward<A>(a)...}); }
    void push(const T& i) { Top = i; } // names the queue; its contents are arbitrary
};
#include "poll_plan.h"
typedef TScheduler<Entry, ById> Scheduler;
static const int LOW = 0, HIGH = 1;
struct Step
{
    int Chosen = -1;              // the queue that is served
    bool Forced = false;          // its first entry is forced
    milliseconds Limit{0};
    time_p Now;
    size_t Calls = 0;
    bool Refused = false;
    bool operator()(const Entry& e, TItemAccumulationPolicy policy, milliseconds limit)
    {
        VF_ASSERT(!Refused, "a refusal ends the selection");
        VF_ASSERT(Chosen != -1 && e.Kind == Chosen, "only the entries of the priority whose turn it is are offered");
        auto& q = Q[Chosen];
        VF_ASSERT(!q.Empty && e.Id == q.Id, "entries are offered in the order of the queue");
        VF_ASSERT(q.Deadline <= Now, "only due entries are offered");
        VF_ASSERT(q.Pops == Calls, "every accepted entry is taken from the queue before the next is offered");
        VF_ASSERT((policy == TItemAccumulationPolicy::Force) == (Forced && Calls == 0), "only the first entry is forced");
        VF_ASSERT(limit == Limit, "the limit");
        if (!vf_bool()) {
            Refused = true;
            return false;
        }
        ++Calls;
        return true;
    }
};
static void Named(Scheduler& s)
{
    s.AddEntry(Entry{LOW, 0}, time_p(), TPriority::Low);
    s.AddEntry(Entry{HIGH, 0}, time_p(), TPriority::High);
}
static bool Due(int k, time_p now) { return !Q[k].Empty && Q[k].Deadline <= now; }
static milliseconds AnyMs() { return milliseconds(int64_t(__vf_u32())); }
template<int which> static void Select()
{
    auto lag = AnyMs();
    Scheduler s(lag);
    Named(s);
    Q[LOW].Pops = Q[HIGH].Pops = 0;
    Arb(Q[LOW]);
    Arb(Q[HIGH]);
    // an arbitrary state of the balancer (C16): at most twice the lag either way
    auto total = AnyMs();
    VF_REQUIRES(total <= 2 * lag);
    bool more = vf_bool();
    s.UpdateSelectionTime(total, more ? TPriority::High : TPriority::Low);
    if (!more)
        total = -total;
    VF_ASSERT(s.GetTotalTime() == total, "time balance");
    Step step;
    step.Now = AnyTime();
    auto policy = vf_bool() ? TItemSelectionPolicy::All : TItemSelectionPolicy::OnlyHighPriority;
    bool all = policy == TItemSelectionPolicy::All;
    bool low = Due(LOW, step.Now), high = Due(HIGH, step.Now), noHigh = Q[HIGH].Empty;
    bool lowsTurn = all && (total >= lag || noHigh);
    if (high && !(lowsTurn && low)) {
        step.Chosen = HIGH;
        step.Forced = true;
        step.Limit = milliseconds::max();
    } else if (low) {
        step.Chosen = LOW;
        step.Forced = lowsTurn;
        if (noHigh)
            step.Limit = milliseconds::max();
        else {
            auto toHigh = Q[HIGH].Deadline - step.Now;
            if (toHigh > nanoseconds(0))
                step.Limit = std::chrono::ceil<milliseconds>(toHigh);
            else
                step.Limit = total > lag ? total - lag : milliseconds(0);
        }
    }
    VF_REQUIRES(step.Chosen == which);
    s.AccumulateNext(step.Now, step, policy);
    VF_ASSERT(Q[LOW].Pops == (which == LOW ? step.Calls : 0), "low priority entries are taken exactly if accepted");
    VF_ASSERT(Q[HIGH].Pops == (which == HIGH ? step.Calls : 0), "high priority entries are taken exactly if accepted");
    if (which != -1) {
        VF_ASSERT(step.Refused || step.Calls > 0, "a due entry is offered");
        VF_ASSERT(step.Refused || !Due(which, step.Now), "the selection goes on until the accumulator refuses or no entry is due");
    }
    VF_ASSERT(s.GetTotalTime() == total, "selecting does not change the time balance");
    if constexpr (which == LOW)
        if (!all)
            __vf_cover("low while only high priority was asked for");
    __vf_cover("selected");
}
VF_HARNESS(high) { Select<HIGH>(); }
VF_HARNESS(low) { Select<LOW>(); }
VF_HARNESS(none) { Select<-1>(); }
