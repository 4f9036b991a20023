// C14: the queue of scheduled entries
#include "vf.h"
#include "poll_plan.h"
using namespace std::chrono;
using time_p = steady_clock::time_point;
typedef TPriorityQueueSchedule<uint32_t, std::less<uint32_t>> Queue;
typedef Queue::TItem Item;
static time_p AnyTime() { return time_p(nanoseconds(int64_t(__vf_u64()))); }
// a is served later than b
static bool Later(uint32_t ea, time_p ta, uint32_t eb, time_p tb) { return ta > tb || (ta == tb && ea < eb); }
VF_HARNESS(order)
{
    Item a{__vf_u32(), AnyTime()}, b{__vf_u32(), AnyTime()}, c{__vf_u32(), AnyTime()};
    VF_ASSERT((a < b) == Later(a.Data, a.Deadline, b.Data, b.Deadline), "the earlier deadline goes first; among equal ones the predicate decides");
    VF_ASSERT(!(a < a), "irreflexive");
    VF_ASSERT(!(a < b && b < a), "asymmetric");
    if (a < b && b < c)
        VF_ASSERT(a < c, "transitive");
    __vf_cover("compared");
}
VF_HARNESS(empty)
{
    Queue q;
    auto t = AnyTime();
    uint32_t e = __vf_u32();
    VF_ASSERT(q.IsEmpty() && !q.HasReadyItems(t) && !q.Contains(e), "nothing in an empty queue");
    VF_ASSERT(q.GetDeadline() == time_p::max(), "an empty queue has no deadline");
    q.Remove(e);
    VF_ASSERT(q.IsEmpty(), "removing from an empty queue");
    q.AddEntry(e, t);
    auto now = AnyTime();
    VF_ASSERT(!q.IsEmpty() && q.GetDeadline() == t && q.GetTop().Deadline == t && q.GetTop().Data == e, "one entry");
    VF_ASSERT(q.HasReadyItems(now) == (t <= now), "an entry is due from its deadline on");
    __vf_cover("used");
}
// a ghost list of entries
template<size_t max> struct List
{
    uint32_t E[max];
    time_p T[max];
    bool In[max] = {};
    size_t N = 0;
    size_t First() const
    {
        size_t f = max;
        for (size_t i = 0; i < N; ++i)
            if (In[i] && (f == max || Later(E[f], T[f], E[i], T[i])))
                f = i;
        return f;
    }
    size_t Count() const
    {
        size_t c = 0;
        for (size_t i = 0; i < N; ++i)
            c += In[i];
        return c;
    }
};
static bool Small; // deadlines and entries from a small range
template<size_t max> static void Add(Queue& q, List<max>& l)
{
    auto& e = l.E[l.N];
    e = Small ? __vf_u8() : __vf_u32();
    for (size_t i = 0; i < l.N; ++i)
        VF_REQUIRES(l.E[i] != e);
    l.T[l.N] = Small ? time_p(nanoseconds(__vf_u8())) : AnyTime();
    q.AddEntry(e, l.T[l.N]);
    l.In[l.N++] = true;
}
template<size_t max> static void Check(const Queue& q, const List<max>& l)
{
    size_t f = l.First();
    VF_ASSERT(q.IsEmpty() == (f == max), "empty exactly if every entry is gone");
    if (f == max)
        return;
    VF_ASSERT(q.GetTop().Data == l.E[f] && q.GetTop().Deadline == l.T[f] && q.GetDeadline() == l.T[f], "the entry to be served first is on top");
    for (size_t i = 0; i < l.N; ++i)
        VF_ASSERT(q.Contains(l.E[i]) == l.In[i], "contains exactly the entries that were added and not taken");
}
template<size_t max> static void Take(Queue& q, List<max>& l)
{
    size_t f = l.First();
    if (f == max)
        return;
    q.Pop();
    l.In[f] = false;
}
template<size_t max> static void Drain(Queue& q, List<max>& l)
{
    for (size_t i = 0; i <= max; ++i) {
        Check(q, l);
        Take(q, l);
    }
    VF_ASSERT(q.IsEmpty(), "every entry is served once");
}
template<size_t max> static void Pops()
{
    Queue q;
    List<max> l;
    for (size_t i = 0; i < max; ++i)
        Add(q, l);
    Drain(q, l);
    __vf_cover("served");
}
VF_HARNESS(pops_3) { Pops<3>(); }
VF_HARNESS(pops_many) { Small = true; Pops<9>(); }
VF_HARNESS(mixed)
{
    const size_t max = 4;
    Queue q;
    List<max> l;
    Add(q, l);
    Add(q, l);
    Take(q, l);
    Add(q, l);
    Check(q, l);
    Add(q, l);
    Drain(q, l);
    __vf_cover("served");
}
template<size_t max> static void Removes()
{
    Queue q;
    List<max> l;
    for (size_t i = 0; i < max; ++i)
        Add(q, l);
    size_t r = __vf_split(__vf_size(max));
    uint32_t e = r < max ? l.E[r] : Small ? 1000 : __vf_u32();
    if (r < max)
        l.In[r] = false;
    else
        for (size_t i = 0; i < max; ++i)
            VF_REQUIRES(l.E[i] != e);
    q.Remove(e);
    Drain(q, l);
    __vf_cover("served");
}
VF_HARNESS(removes_3) { Removes<3>(); }
VF_HARNESS(removes_many) { Small = true; Removes<9>(); }
