// C35-C37: poll_plan.h
#include "symx.h"
#include "poll_plan.h"
#include <vector>

using namespace std;
using namespace std::chrono;
typedef steady_clock::time_point TP;

static TP At(uint64_t us)
{
    return TP(microseconds(us));
}

// ---------------------------------------------------------------- C35: the queue
HARNESS h_queue()
{
    typedef TPriorityQueueSchedule<int, std::less<int>> Q;
    Q q;
    size_t steps = symx_param("steps", 5);
    vector<uint64_t> d;
    vector<bool> alive;
    for (size_t i = 0; i < steps; ++i) {
        size_t count = 0;
        for (bool a: alive)
            count += a;
        int op = (int)Pick("op", 0, count ? 2 : 0);
        if (op == 0) {
            uint64_t t = SymRange("t", 0, (1ull << symx_param("bits", 40)) - 1);
            q.AddEntry((int)d.size(), At(t));
            d.push_back(t);
            alive.push_back(true);
        } else if (op == 1) {
            alive[q.GetTop().Data] = false;
            q.Pop();
        } else {
            int k = (int)Pick("k", 0, d.size() - 1);
            q.Remove(k); // removing an absent entry changes nothing
            alive[k] = false;
        }
        uint64_t now = SymRange("now", 0, (1ull << symx_param("bits", 40)) - 1);
        size_t n = 0;
        bool ready = false;
        for (size_t k = 0; k < d.size(); ++k) {
            symx_assert(q.Contains((int)k) == alive[k], "the queue contains exactly the entries added and not taken");
            n += alive[k];
            ready |= alive[k] & (d[k] <= now);
        }
        symx_assert(q.IsEmpty() == (n == 0), "the queue is empty only when everything is taken");
        symx_assert(q.HasReadyItems(At(now)) == ready, "an entry is ready exactly when its deadline has come");
        if (n == 0) {
            symx_assert(q.GetDeadline() == TP::max(), "an empty queue has no deadline");
            continue;
        }
        auto& top = q.GetTop();
        symx_assert(top.Data >= 0 && top.Data < (int)d.size() && alive[top.Data], "the first entry is one of those added");
        symx_assert(top.Deadline == At(d[top.Data]) && q.GetDeadline() == top.Deadline, "the entry keeps its deadline");
        for (size_t k = 0; k < d.size(); ++k) {
            if (alive[k]) {
                symx_assert(top.Deadline <= At(d[k]), "the first entry has the earliest deadline");
                symx_assert(d[k] != d[top.Data] || !(top.Data < (int)k), "entries with the same deadline are ordered by the predicate");
            }
        }
        symx_observe("top", top.Data);
        symx_reach("checked");
    }
}

struct TTake
{
    int Data;
    TItemAccumulationPolicy Policy;
    milliseconds Limit;
};
struct TAcc
{
    vector<TTake> Offered;
    size_t Accept = 0;
    bool operator()(int e, TItemAccumulationPolicy policy, milliseconds limit)
    {
        Offered.push_back({e, policy, limit});
        return Offered.size() <= Accept;
    }
};

// ---------------------------------------------------------------- C35, C36: one selection in an arbitrary state
HARNESS h_select()
{
    const uint64_t BITS = symx_param("bits", 40);
    int64_t lag = (int64_t)SymRange("lag", 1, 1 << 20);
    TScheduler<int> s{milliseconds(lag)};
    int64_t total = 0;
    // history of the time balance
    size_t upd = Pick("upd", 0, symx_param("upd", 2));
    for (size_t i = 0; i < upd; ++i) {
        int64_t x = (int64_t)SymRange("x", 0, 1 << 22);
        bool hi = symx_choose(SymBool("hi"));
        s.UpdateSelectionTime(milliseconds(x), hi ? TPriority::High : TPriority::Low);
        int64_t n = hi ? total + x : total - x;
        int64_t m = 2 * lag;
        total = symx_ite(n > m, m, symx_ite(n < -m, -m, n));
        symx_assert(s.GetTotalTime() == milliseconds(total), "the time balance is the difference of the times, within its limits");
    }
    if (symx_choose(SymBool("reset"))) {
        s.ResetLoadBalancing();
        total = 0;
        symx_assert(s.GetTotalTime().count() == 0, "the time balance can be reset");
    }
    size_t nh = Pick("nh", 0, symx_param("nh", 2)), nl = Pick("nl", 0, symx_param("nl", 2));
    vector<uint64_t> d;
    uint64_t now = SymRange("now", 0, (1ull << BITS) - 1);
    uint64_t minH = ~0ull, minL = ~0ull;
    bool readyH = false, readyL = false;
    for (size_t i = 0; i < nh + nl; ++i) {
        uint64_t t = SymRange("t", 0, (1ull << BITS) - 1);
        d.push_back(t);
        bool high = i < nh;
        s.AddEntry((int)i, At(t), high ? TPriority::High : TPriority::Low);
        uint64_t& m = high ? minH : minL;
        m = symx_ite(t < m, t, m);
        (high ? readyH : readyL) |= t <= now;
    }
    symx_assert(s.GetHighPriorityDeadline() == (nh ? At(minH) : TP::max()), "the high priority deadline is the earliest one");
    symx_assert(s.GetLowPriorityDeadline() == (nl ? At(minL) : TP::max()), "the low priority deadline is the earliest one");
    symx_assert(s.GetDeadline() == min(s.GetHighPriorityDeadline(), s.GetLowPriorityDeadline()), "the deadline is the earliest pending one");
    symx_assert(s.IsEmpty() == (nh + nl == 0), "the scheduler is empty only without entries");
    bool onlyHigh = symx_choose(SymBool("only_high"));
    TAcc acc;
    acc.Accept = Pick("accept", 0, nh + nl);
    s.AccumulateNext(At(now), acc, onlyHigh ? TItemSelectionPolicy::OnlyHighPriority : TItemSelectionPolicy::All);

    bool needLow = !onlyHigh && ((total >= lag) | (nh == 0)); // a waiting low priority item must be served
    int expect = 0; // 1 high, 2 low
    if (readyH && !(needLow && readyL))
        expect = 1;
    else if (readyL && !onlyHigh)
        expect = 2;
    symx_assert(acc.Offered.empty() == (expect == 0), "something is selected exactly when an item of an allowed priority is due");
    vector<bool> taken(d.size(), false);
    for (size_t i = 0; i < acc.Offered.size(); ++i) {
        auto& o = acc.Offered[i];
        symx_assert(o.Data >= 0 && o.Data < (int)d.size() && !taken[o.Data], "only pending items are offered, once each");
        bool high = o.Data < (int)nh;
        symx_assert(high == (expect == 1), "the items offered are of the priority whose turn it is");
        symx_assert(d[o.Data] <= now, "an item is offered only when its time has come");
        for (size_t k = 0; k < d.size(); ++k)
            if (!taken[k] && (k < nh) == high)
                symx_assert(d[o.Data] <= d[k], "items are offered in the order of their deadlines");
        bool force = i == 0 && (high || needLow);
        symx_assert(o.Policy == (force ? TItemAccumulationPolicy::Force : TItemAccumulationPolicy::AccordingToPollLimitTime),
                    "only the first item whose turn it is may exceed the limit");
        if (high || nh == 0) {
            symx_assert(o.Limit == milliseconds::max(), "there is no limit when nothing else waits");
        } else {
            uint64_t wait = (minH - now + 999) / 1000; // valid if minH > now
            uint64_t lim = symx_ite(minH > now, wait, symx_ite(total > lag, total - lag, 0));
            symx_assert(o.Limit == milliseconds((int64_t)lim), "low priority items get the time until the next high priority one or their share");
            symx_reach("limited");
        }
        if (i < acc.Accept)
            taken[o.Data] = true;
        else
            symx_assert(i + 1 == acc.Offered.size(), "nothing is offered after a refusal");
    }
    for (size_t k = 0; k < d.size(); ++k) {
        symx_assert(s.Contains((int)k) == !taken[k], "exactly the accepted items are removed");
        if (!taken[k] && acc.Offered.size() <= acc.Accept && (k < nh) == (expect == 1) && expect)
            symx_assert(d[k] > now, "all due items of the selected priority are offered");
        symx_observe("taken", taken[k]);
    }
    symx_observe("offered", acc.Offered.size());
    if (expect == 1)
        symx_reach("high");
    if (expect == 2)
        symx_reach("low");
    symx_reach("done");
}

// ---------------------------------------------------------------- C35: histories of the scheduler
HARNESS h_history()
{
    TScheduler<int> s{milliseconds(1000)};
    size_t steps = symx_param("steps", 5);
    vector<uint64_t> d;
    vector<int> st; // 0 absent, 1 high, 2 low
    uint64_t now = 0;
    for (size_t i = 0; i < steps; ++i) {
        int op = (int)Pick("op", 0, 3);
        if (op <= 1) {
            uint64_t t = SymRange("t", 0, 1 << 20);
            s.AddEntry((int)d.size(), At(t), op ? TPriority::Low : TPriority::High);
            d.push_back(t);
            st.push_back(op + 1);
        } else if (op == 2) {
            if (d.empty())
                symx_prune();
            int k = (int)Pick("k", 0, d.size() - 1);
            s.Remove(k);
            st[k] = 0;
        } else {
            now += SymRange("dt", 0, 1 << 20);
            TAcc acc;
            acc.Accept = Pick("accept", 0, 2);
            s.AccumulateNext(At(now), acc, TItemSelectionPolicy::All);
            for (size_t j = 0; j < acc.Offered.size(); ++j) {
                int k = acc.Offered[j].Data;
                symx_assert(k >= 0 && k < (int)d.size() && st[k] && d[k] <= now, "only due pending items are offered");
                if (j < acc.Accept) {
                    st[k] = 0;
                    symx_reach("taken");
                }
            }
        }
        bool any = false;
        uint64_t m = ~0ull;
        for (size_t k = 0; k < d.size(); ++k) {
            symx_assert(s.Contains((int)k) == (st[k] != 0), "no item is lost, duplicated or invented");
            if (st[k]) {
                any = true;
                m = symx_ite(d[k] < m, d[k], m);
            }
        }
        symx_assert(s.IsEmpty() == !any, "the scheduler is empty only when everything is taken");
        symx_assert(s.GetDeadline() == (any ? At(m) : TP::max()), "the deadline is the earliest pending one");
    }
    symx_reach("done");
}

// ---------------------------------------------------------------- C36: no starvation, bounded share
HARNESS h_starvation()
{
    const int64_t lag = symx_param("lag", 1000);
    TScheduler<int> s{milliseconds(lag)};
    size_t steps = symx_param("steps", 4);
    int64_t sinceLow = 0; // time given to high priority items while the low priority one waits
    int64_t credit = 0;   // time the low priority item was given in advance
    for (size_t i = 0; i < steps; ++i) {
        TP now = At(1000 * (i + 1));
        if (!s.Contains(1))
            s.AddEntry(1, TP(), TPriority::High);
        if (!s.Contains(2))
            s.AddEntry(2, TP(), TPriority::Low);
        TAcc acc;
        acc.Accept = 1;
        s.AccumulateNext(now, acc, TItemSelectionPolicy::All);
        symx_assert(acc.Offered.size() == 1, "one item is taken when both are due");
        int64_t x = (int64_t)SymRange("x", 0, symx_param("max", 1000000));
        bool high = acc.Offered[0].Data == 1;
        symx_observe("high", high);
        s.UpdateSelectionTime(milliseconds(x), high ? TPriority::High : TPriority::Low);
        if (high) {
            symx_assert(sinceLow < lag + credit, "a waiting low priority item is served once its lag is reached");
            sinceLow += x;
            symx_reach("high");
        } else {
            symx_assert(sinceLow >= lag || credit < 0, "high priority items are preferred while the low priority lag is small");
            // what remains of the lag after this service, within the limits of the balancer
            int64_t t = symx_ite(sinceLow - credit > 2 * lag, 2 * lag, sinceLow - credit) - x;
            t = symx_ite(t < -2 * lag, -2 * lag, t);
            sinceLow = 0;
            credit = -t;
            symx_reach("low");
        }
    }
}

// ---------------------------------------------------------------- C37
HARNESS h_rate()
{
    size_t limit = Pick("limit", 0, symx_param("limit", 3));
    TRateLimiter r(limit);
    size_t n = symx_param("n", 5);
    // clock values from boot, in microseconds
    uint64_t t = SymRange("start", 0, 1ull << 42);
    vector<uint64_t> at;
    for (size_t i = 0; i < n; ++i) {
        bool over = r.IsOverLimit(At(t));
        symx_observe("over", over);
        if (limit == 0) {
            symx_assert(!over, "zero means no limit");
        } else {
            size_t lastSecond = 0, sameSecond = 0;
            for (uint64_t a: at) {
                lastSecond += a + 1000000 >= t;
                sameSecond += (a / 1000000 == t / 1000000) & (a % 1000000 != 0);
            }
            symx_assert(!over || lastSecond > limit, "no delay unless more than the limit was read within the last second");
            symx_assert(over || sameSecond <= limit, "more reads than the limit within one clock second are noticed");
            if (over)
                symx_reach("over");
            symx_assert(!over || r.GetStartTime() + seconds(1) >= At(t), "the time until which reads are delayed is not in the past");
            symx_assert(r.GetStartTime() <= At(t), "the accounting second does not start in the future");
        }
        if (symx_choose(SymBool("item"))) {
            r.NewItem(At(t));
            at.push_back(t);
        }
        t += SymRange("dt", 0, symx_param("dt", 3000000));
    }
    symx_reach("done");
}

HARNESS h_balancer()
{
    int64_t thr = (int64_t)SymRange("thr", 0, 1 << 30), max = (int64_t)SymRange("max", 0, 1 << 30);
    TTotalTimeBalancer b{milliseconds(thr), milliseconds(max)};
    symx_assert(b.GetTotalTime().count() == 0, "the balance starts at zero");
    int64_t total = 0;
    for (int i = 0; i < 3; ++i) {
        int64_t x = (int64_t)SymRange("x", 0, 1 << 30);
        if (symx_choose(SymBool("inc"))) {
            b.IncrementTotalTime(milliseconds(x));
            total = symx_ite(total + x > max, max, total + x);
        } else {
            b.DecrementTotalTime(milliseconds(x));
            total = symx_ite(total - x < -max, -max, total - x);
        }
        symx_assert(b.GetTotalTime().count() == total, "the balance is kept within its limits");
        symx_assert(b.ShouldDecrement() == (total >= thr), "the balance must be reduced from the threshold on");
        symx_assert(b.GetTimeToDecrement().count() == (total > thr ? total - thr : 0), "the excess is what is above the threshold");
    }
    b.Reset();
    symx_assert(b.GetTotalTime().count() == 0, "the balance is reset");
    symx_reach("done");
}
