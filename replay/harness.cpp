// Executes the real code of stereo-parallel on generated inputs and compares
// what it does with oracles written from the property statements.
//
//   harness PROPERTY SEED MILLISECONDS        look for a failing input
//   harness PROPERTY --case CASE              run one recorded case again
//
// A failing case is printed as  "FAIL case=<number> <what>" followed by the
// input.  The environment variable LITERALS holds numbers that occur in the
// code under test; they are used as sizes and values now and then.
#include <algorithm>
#include <chrono>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <constraint_graph.hpp>
#include <disparity_graph.hpp>
#include <image.hpp>
#include <indexing.hpp>
#include <indexing_checks.hpp>
#include <labeling_finder.hpp>
#include <lowest_penalties.hpp>
#include <pgm_io.hpp>

#ifdef WITH_MAIN
int sp_main(int argc, char* argv[]);
#endif

extern "C" void __sanitizer_set_death_callback(void (*)(void));

using namespace sp::types;
using sp::graph::constraint::ConstraintGraph;
using sp::graph::disparity::DisparityGraph;
using sp::graph::lowest_penalties::LowestPenalties;
using sp::image::Image;
using sp::image::PGM_IO;
namespace ix = sp::indexing;
namespace ck = sp::indexing::checks;
namespace dg = sp::graph::disparity;
namespace lpn = sp::graph::lowest_penalties;
namespace cgn = sp::graph::constraint;
namespace lf = sp::labeling::finder;

typedef unsigned long U;

// ------------------------------------------------------------------ random
struct Rng
{
    uint64_t s;
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    U below(U n) { return n == 0 ? 0 : next() % n; }
    U range(U a, U b) { return a + below(b - a + 1); }
    bool chance(int percent) { return below(100) < U(percent); }
    template <class T> T pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
};

static std::vector<U> literals;
static std::string info;          // the input of the current case
static uint64_t case_number;
static unsigned long executed, interesting;
static std::string what_runs;
static std::unordered_set<uint64_t> digests;

struct Failure
{
    std::string what;
};

static void fail(const std::string& what) { throw Failure{what}; }

#define REQUIRE(c, msg)                                                       \
    do                                                                        \
    {                                                                         \
        if (!(c))                                                             \
        {                                                                     \
            std::ostringstream o_;                                            \
            o_ << msg;                                                        \
            fail(o_.str());                                                   \
        }                                                                     \
    } while (0)

static void report(const char* what)
{
    printf("FAIL case=%llu %s\n%s\n", (unsigned long long)case_number, what,
           info.c_str());
    fflush(stdout);
}

static void on_death()
{
    report("the code was stopped by a sanitizer or a failed assertion");
}

static void on_alarm(int)
{
    report("the code did not terminate within 20 seconds");
    _exit(3);
}

// a value that often hits the constants of the code under test
static U size_value(Rng& r, U lo, U hi)
{
    if (!literals.empty() && r.chance(15))
    {
        U v = r.pick(literals) + r.below(3);
        v = v == 0 ? v : v - 1;
        if (v >= lo && v <= hi)
        {
            return v;
        }
    }
    return r.range(lo, hi);
}

// ---------------------------------------------------------------- problems
struct Problem
{
    DisparityGraph g;
    U W, H, D;
};

static std::string show(const Image& i)
{
    std::ostringstream o;
    o << i.width << "x" << i.height << " max " << i.max_value << " data";
    for (size_t k = 0; k < i.data.size() && k < 400; ++k)
    {
        o << " " << i.data[k];
    }
    return o.str();
}

static std::string show(const DisparityGraph& g)
{
    std::ostringstream o;
    o.precision(17);
    o << "left " << show(g.left) << "\nright " << show(g.right)
      << "\nlevels " << g.disparity_levels << " cleanness " << g.cleanness
      << " smoothness " << g.smoothness << "\nreparametrization";
    bool zero = true;
    for (double d : g.reparametrization)
    {
        zero = zero && d == 0;
    }
    if (zero)
    {
        o << " zero";
    }
    else
    {
        for (size_t k = 0; k < g.reparametrization.size() && k < 2000; ++k)
        {
            o << " " << g.reparametrization[k];
        }
    }
    return o.str();
}

static Image random_image(Rng& r, U W, U H, U M, int style)
{
    Image i{W, H, M, ULONG_ARRAY(W * H)};
    U few = 1 + r.below(3);
    for (U y = 0; y < H; ++y)
    {
        for (U x = 0; x < W; ++x)
        {
            U v = 0;
            switch (style)
            {
            case 0:
                v = r.range(0, M);
                break;
            case 1:
                v = std::min(M, r.below(few + 1));
                break;
            case 2:
                v = std::min(M, x);
                break;
            case 3:
                v = r.chance(10) ? M : 0;
                break;
            default:
                v = M;
                break;
            }
            i.data[W * y + x] = v;
        }
    }
    return i;
}

static double random_weight(Rng& r)
{
    static const std::vector<double> w{0,   1,    1,   1,    2,      3,   0.5,
                                       0.25, 10, 1000, 1.0 / 1024, 7, 1, 0.125};
    return r.pick(w);
}

static Problem random_problem(Rng& r, U budget = 160, bool reparam = true)
{
    Problem p;
    for (;;)
    {
        U kind = r.below(10);
        U W, H, D;
        if (kind < 6)
        {
            W = size_value(r, 2, 6);
            H = size_value(r, 1, 5);
        }
        else if (kind < 8)
        {
            W = size_value(r, 2, 16);
            H = size_value(r, 1, 3);
        }
        else if (kind < 9)
        {
            W = size_value(r, 2, 4);
            H = size_value(r, 1, 24);
        }
        else
        {
            W = size_value(r, 2, 60);
            H = size_value(r, 1, 60);
        }
        D = r.chance(30) ? W : size_value(r, 2, W);
        if (r.chance(10))
        {
            D = 2;
        }
        if (W * H * D > budget)
        {
            continue;
        }
        p.W = W;
        p.H = H;
        p.D = D;
        break;
    }
    static const std::vector<U> maxima{1, 2, 3, 5, 10, 20, 255, 256, 1000,
                                       65535, 65536, 1u << 20};
    U M = r.chance(10) && !literals.empty() ? r.pick(literals) : r.pick(maxima);
    M = std::max<U>(1, std::min<U>(M, 1u << 20));
    Image left = random_image(r, p.W, p.H, M, r.below(4) ? r.below(2)
                                                         : r.below(5));
    Image right = r.chance(20)
        ? left
        : random_image(r, p.W, p.H, M, r.below(4) ? r.below(2) : r.below(5));
    if (r.chance(25))
    {
        // shifted copy: a plausible stereo pair
        U s = r.below(p.D);
        for (U y = 0; y < p.H; ++y)
        {
            for (U x = 0; x + s < p.W; ++x)
            {
                right.data[p.W * y + x] = left.data[p.W * y + x + s];
            }
        }
    }
    double c = random_weight(r), s = random_weight(r);
    if (c * double(M) * double(M) > 0x1p43)
    {
        c = 1;     // sums and differences of penalties are to be exact
    }
    if (c + s < 1e-3)
    {
        s = 1;
    }
    p.g.left = left;
    p.g.right = right;
    p.g.disparity_levels = p.D;
    p.g.cleanness = c;
    p.g.smoothness = s;
    p.g.reparametrization = FLOAT_ARRAY(p.W * p.H * 4 * p.D, 0.0);
    if (reparam && r.chance(60))
    {
        static const std::vector<double> spans{1, 4, 10, 1000, 1e6};
        double span = r.pick(spans);
        double shift = r.chance(20) ? (r.chance(50) ? span : -span) * 2 : 0;
        int dense = r.chance(70) ? 100 : 10;
        // every penalty stays a multiple of 2^-k below 2^(52 - k), so the sums
        // are exact in every order
        bool tiny = r.chance(25);
        double top = std::log2(8 + c * double(M) * double(M)
                               + s * double(p.D) * double(p.D));
        double unit = std::exp2(-std::floor(36 - top));
        for (double& v : p.g.reparametrization)
        {
            if (!r.chance(dense))
            {
                continue;
            }
            if (tiny)
            {
                v = unit * (double(r.below(2001)) - 1000);
                v = r.chance(70) ? v / 64 : v;
            }
            else
            {
                v = shift + std::floor((double(r.below(2001)) / 1000 - 1)
                                       * span * 4) / 4;
            }
        }
    }
    info += show(p.g) + "\n";
    return p;
}

// ------------------------------------------------------------------ oracles
static const long DX[4] = {1, -1, 0, 0}, DY[4] = {0, 0, 1, -1};

static bool pixel_in(const Problem& p, U x, U y) { return x < p.W && y < p.H; }

static bool node_in(const Problem& p, U x, U y, U d)
{
    return x < p.W && y < p.H && d < p.D && d < p.W - x;
}

static bool neighbor_of(const Problem& p, U x, U y, int k, U& x2, U& y2)
{
    x2 = x + DX[k];
    y2 = y + DY[k];
    return pixel_in(p, x2, y2);
}

static bool edge_in(const Problem& p, const Edge& e)
{
    const Node &a = e.node, &b = e.neighbor;
    if (!node_in(p, a.pixel.x, a.pixel.y, a.disparity)
        || !node_in(p, b.pixel.x, b.pixel.y, b.disparity))
    {
        return false;
    }
    bool adjacent = false;
    for (int k = 0; k < 4; ++k)
    {
        U x2, y2;
        if (neighbor_of(p, a.pixel.x, a.pixel.y, k, x2, y2)
            && x2 == b.pixel.x && y2 == b.pixel.y)
        {
            adjacent = true;
        }
    }
    if (!adjacent)
    {
        return false;
    }
    if (b.pixel.x == a.pixel.x + 1)
    {
        return a.disparity <= b.disparity + 1;
    }
    if (a.pixel.x == b.pixel.x + 1)
    {
        return b.disparity <= a.disparity + 1;
    }
    return true;
}

// penalties, computed here from the documented formulas
static double phi(const Problem& p, U x, U y, U d, int k)
{
    return p.g.reparametrization[ix::reparametrization_index_fast(
        &p.g, Node{{x, y}, d}, U(k))];
}

static double node_pen(const Problem& p, U x, U y, U d)
{
    double a = double(p.g.right.data[p.W * y + x]);
    double b = double(p.g.left.data[p.W * y + x + d]);
    double v = p.g.cleanness * (a - b) * (a - b);
    for (int k = 0; k < 4; ++k)
    {
        v += phi(p, x, y, d, k);
    }
    return v;
}

static int which_neighbor(U x, U y, U x2, U y2)
{
    for (int k = 0; k < 4; ++k)
    {
        if (x + DX[k] == x2 && y + DY[k] == y2)
        {
            return k;
        }
    }
    abort();
}

static double edge_pen(const Problem& p, const Edge& e)
{
    const Node &a = e.node, &b = e.neighbor;
    double dd = double(a.disparity) - double(b.disparity);
    int k = which_neighbor(a.pixel.x, a.pixel.y, b.pixel.x, b.pixel.y);
    int k2 = which_neighbor(b.pixel.x, b.pixel.y, a.pixel.x, a.pixel.y);
    return p.g.smoothness * dd * dd
        - phi(p, a.pixel.x, a.pixel.y, a.disparity, k)
        - phi(p, b.pixel.x, b.pixel.y, b.disparity, k2);
}

static double lowest_node(const Problem& p, U x, U y)
{
    double m = std::numeric_limits<double>::infinity();
    for (U d = 0; d < p.D; ++d)
    {
        if (node_in(p, x, y, d))
        {
            m = std::min(m, node_pen(p, x, y, d));
        }
    }
    return m;
}

static double lowest_edge(const Problem& p, U x, U y, U x2, U y2)
{
    double m = std::numeric_limits<double>::infinity();
    for (U d = 0; d < p.D; ++d)
    {
        for (U d2 = 0; d2 < p.D; ++d2)
        {
            Edge e{{{x, y}, d}, {{x2, y2}, d2}};
            if (edge_in(p, e))
            {
                m = std::min(m, edge_pen(p, e));
            }
        }
    }
    return m;
}

static bool about(double a, double b)
{
    return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0,
        std::max(std::fabs(a), std::fabs(b)));
}

// everything about one problem, tabulated
struct Tables
{
    std::vector<double> pen, low;              // nodes, pixels
    std::vector<double> nlow;                  // neighborhoods
    std::vector<std::vector<double>> epen;     // [node * 4 + k][d2]
    U node(const Problem& p, U x, U y, U d) const
    {
        return (x * p.H + y) * p.D + d;
    }
};

static Tables tabulate(const Problem& p)
{
    Tables t;
    const double nan = std::numeric_limits<double>::quiet_NaN();
    t.pen.assign(p.W * p.H * p.D, nan);
    t.low.assign(p.W * p.H, nan);
    t.nlow.assign(p.W * p.H * 4, nan);
    t.epen.assign(p.W * p.H * p.D * 4, std::vector<double>());
    for (U x = 0; x < p.W; ++x)
    {
        for (U y = 0; y < p.H; ++y)
        {
            for (U d = 0; d < p.D; ++d)
            {
                if (node_in(p, x, y, d))
                {
                    t.pen[t.node(p, x, y, d)] = node_pen(p, x, y, d);
                }
            }
            t.low[x * p.H + y] = lowest_node(p, x, y);
            for (int k = 0; k < 4; ++k)
            {
                U x2, y2;
                if (!neighbor_of(p, x, y, k, x2, y2))
                {
                    continue;
                }
                double m = std::numeric_limits<double>::infinity();
                for (U d = 0; d < p.D; ++d)
                {
                    auto& row = t.epen[t.node(p, x, y, d) * 4 + k];
                    row.assign(p.D, nan);
                    for (U d2 = 0; d2 < p.D; ++d2)
                    {
                        Edge e{{{x, y}, d}, {{x2, y2}, d2}};
                        if (edge_in(p, e))
                        {
                            row[d2] = edge_pen(p, e);
                            m = std::min(m, row[d2]);
                        }
                    }
                }
                t.nlow[(x * p.H + y) * 4 + k] = m;
            }
        }
    }
    return t;
}

typedef std::vector<char> Set;     // by Tables::node

static Set initial_set(const Problem& p, const Tables& t, double th)
{
    Set s(p.W * p.H * p.D, 0);
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
            for (U d = 0; d < p.D; ++d)
                if (node_in(p, x, y, d))
                {
                    U n = t.node(p, x, y, d);
                    s[n] = t.pen[n] - t.low[x * p.H + y] <= th;
                }
    return s;
}

static bool edge_ok(const Problem& p, const Tables& t, double th, U x, U y,
                    U d, int k, U d2)
{
    double e = t.epen[t.node(p, x, y, d) * 4 + k][d2];
    return e == e && e - t.nlow[(x * p.H + y) * 4 + k] <= th;
}

// every node of s has an available edge within s to each neighboring pixel
static bool supported(const Problem& p, const Tables& t, double th,
                      const Set& s, U x, U y, U d)
{
    for (int k = 0; k < 4; ++k)
    {
        U x2, y2;
        if (!neighbor_of(p, x, y, k, x2, y2))
        {
            continue;
        }
        bool ok = false;
        for (U d2 = 0; d2 < p.D && !ok; ++d2)
        {
            ok = s[t.node(p, x2, y2, d2)] && edge_ok(p, t, th, x, y, d, k, d2);
        }
        if (!ok)
        {
            return false;
        }
    }
    return true;
}

static Set greatest_closed(const Problem& p, const Tables& t, double th, Set s)
{
    bool changed = true;
    while (changed)
    {
        changed = false;
        for (U x = 0; x < p.W; ++x)
            for (U y = 0; y < p.H; ++y)
                for (U d = 0; d < p.D; ++d)
                {
                    U n = t.node(p, x, y, d);
                    if (s[n] && !supported(p, t, th, s, x, y, d))
                    {
                        s[n] = 0;
                        changed = true;
                    }
                }
    }
    return s;
}

static bool any(const Set& s)
{
    return std::find(s.begin(), s.end(), 1) != s.end();
}

static Set read_set(const Problem& p, const Tables& t,
                    const ConstraintGraph& c)
{
    Set s(p.W * p.H * p.D, 0);
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
            for (U d = 0; d < p.D; ++d)
            {
                s[t.node(p, x, y, d)] =
                    cgn::is_node_available(&c, Node{{x, y}, d});
            }
    return s;
}

static void write_set(const Problem& p, const Tables& t, ConstraintGraph& c,
                      const Set& s)
{
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
            for (U d = 0; d < p.D; ++d)
            {
                if (s[t.node(p, x, y, d)])
                {
                    cgn::make_node_available(&c, Node{{x, y}, d});
                }
                else
                {
                    cgn::make_node_unavailable(&c, Node{{x, y}, d});
                }
            }
}

static std::string show_set(const Problem& p, const Tables& t, const Set& s)
{
    std::ostringstream o;
    for (U y = 0; y < p.H; ++y)
    {
        for (U x = 0; x < p.W; ++x)
        {
            o << " {";
            for (U d = 0; d < p.D; ++d)
            {
                if (s[t.node(p, x, y, d)])
                {
                    o << d << " ";
                }
            }
            o << "}";
        }
        o << "\n";
    }
    return o.str();
}

static std::vector<double> all_differences(const Problem& p, const Tables& t)
{
    std::set<double> s;
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
            for (U d = 0; d < p.D; ++d)
            {
                U n = t.node(p, x, y, d);
                if (!node_in(p, x, y, d))
                {
                    continue;
                }
                s.insert(t.pen[n] - t.low[x * p.H + y]);
                for (int k = 0; k < 4; ++k)
                    for (double e : t.epen[n * 4 + k])
                        if (e == e)
                        {
                            s.insert(e - t.nlow[(x * p.H + y) * 4 + k]);
                        }
            }
    return std::vector<double>(s.begin(), s.end());
}

static double random_threshold(Rng& r, const Problem& p, const Tables& t)
{
    std::vector<double> v = all_differences(p, t);
    U k = r.below(12);
    if (k == 0)
    {
        return -1;
    }
    if (k == 1)
    {
        return 0;
    }
    if (k == 2)
    {
        return v.back() + 1;
    }
    // small thresholds make constraint propagation interesting
    size_t i = k < 7 ? r.below(std::max<size_t>(1, v.size() / 3))
                     : r.below(v.size());
    double th = v[i];
    if (r.chance(10) && i + 1 < v.size())
    {
        th = (v[i] + v[i + 1]) / 2;
    }
    else if (r.chance(15) && i + 1 < v.size() && v[i + 1] - v[i] > 1e-3)
    {
        // just below the next difference, but so that the sum of the
        // threshold and the lowest penalty is not rounded, too
        double big = 1;
        for (double c : t.pen) { big = c == c ? std::max(big, std::fabs(c)) : big; }
        for (double c : t.nlow) { big = c == c ? std::max(big, std::fabs(c)) : big; }
        int k = std::min(30, 48 - int(std::ceil(std::log2(
            std::max(big, std::fabs(v.back()))))));
        if (k >= 12)
        {
            th = v[i + 1] - std::exp2(-double(r.range(12, k)));
        }
    }
    return th;
}

static Set random_availability(Rng& r, const Problem& p, const Tables& t,
                               double th)
{
    Set s = initial_set(p, t, th);
    U k = r.below(8);
    if (k >= 3)
    {
        int keep = k == 3 ? 50 : k == 4 ? 80 : k == 5 ? 95 : k == 6 ? 98 : 30;
        for (U x = 0; x < p.W; ++x)
            for (U y = 0; y < p.H; ++y)
                for (U d = 0; d < p.D; ++d)
                {
                    s[t.node(p, x, y, d)] =
                        node_in(p, x, y, d) && r.chance(keep);
                }
    }
    else if (k == 1)
    {
        for (char& c : s)
        {
            c = c && r.chance(85);
        }
    }
    return s;
}

static void digest(const std::string& s)
{
    digests.insert(std::hash<std::string>()(s));
}

static bool same_image(const Image& a, const Image& b)
{
    return a.width == b.width && a.height == b.height
        && a.max_value == b.max_value && a.data == b.data;
}

static bool same_graph(const DisparityGraph& a, const DisparityGraph& b)
{
    return same_image(a.left, b.left) && same_image(a.right, b.right)
        && a.disparity_levels == b.disparity_levels
        && a.reparametrization == b.reparametrization
        && a.cleanness == b.cleanness && a.smoothness == b.smoothness;
}

#define FORALL_NODES(p)                                                       \
    for (U x = 0; x < (p).W; ++x)                                             \
        for (U y = 0; y < (p).H; ++y)                                         \
            for (U d = 0; d < (p).D; ++d)                                     \
                if (node_in((p), x, y, d))

static std::string at(U x, U y, U d)
{
    std::ostringstream o;
    o << "node (" << x << ", " << y << ", " << d << ")";
    return o.str();
}

// ------------------------------------------------------------------ checks
static void c01(Rng& r)
{
    static const std::vector<U> maxima{1, 2, 5, 255, 65535, 65536, 1ul << 32,
                                       (1ul << 32) + 1, ~0ul - 1, ~0ul};
    U W = size_value(r, 0, 9), H = size_value(r, 0, 9);
    if (r.chance(10))
    {
        W = size_value(r, 1, 400);
        H = size_value(r, 1, 4);
    }
    if (r.chance(10))
    {
        H = size_value(r, 1, 400);
        W = size_value(r, 1, 4);
    }
    U M = r.pick(maxima);
    Image i{W, H, M, ULONG_ARRAY(W * H)};
    for (U& v : i.data)
    {
        v = r.chance(50) ? M : r.next() % M;
    }
    int bad = r.below(6);
    if (bad == 0 && !i.data.empty() && M != ~0ul)
    {
        U pos = r.below(3) == 0 ? 0 : r.below(2) ? i.data.size() - 1
                                                 : r.below(i.data.size());
        i.data[pos] = r.chance(60) ? M + 1 : M + 1 + r.next() % (~0ul - M);
    }
    if (bad == 1)
    {
        i.max_value = 0;
        for (U& v : i.data)
        {
            v = 0;
        }
    }
    if (bad == 2)
    {
        i.max_value = 0;
    }
    if (bad == 3 && r.chance(40))
    {
        // dimensions without data
        i.data.clear();
        (r.chance(50) ? i.width : i.height) = 0;
        if (r.chance(50))
        {
            i.width = i.width ? i.width : 0;
        }
        (i.width ? i.width : i.height) = r.chance(50) ? ~0ul : 5;
    }
    info = show(i);
    digest(info);
    bool ok = i.width != 0 && i.height != 0 && i.max_value != 0;
    for (U v : i.data)
    {
        ok = ok && v <= i.max_value;
    }
    Image before = i;
    bool got = sp::image::image_valid(&i);
    REQUIRE(got == ok, "image_valid answers " << got << ", expected " << ok);
    REQUIRE(same_image(before, i), "image_valid changed the image");
    ++interesting;
}

static Image printable_image(Rng& r)
{
    static const std::vector<U> widths{1, 2, 3, 9, 10, 11, 12, 13, 21, 22, 23,
                                       24, 33, 34, 35, 44, 45, 55, 66, 70, 71,
                                       100, 110, 121};
    U W = r.chance(60) ? r.pick(widths) : size_value(r, 1, 150);
    U H = r.chance(80) ? size_value(r, 1, 4) : size_value(r, 1, 40);
    static const std::vector<U> maxima{1, 9, 10, 99, 255, 256, 999, 1000, 9999,
                                       10000, 65534, 65535, 65536};
    U M = r.chance(80) ? r.pick(maxima) : size_value(r, 1, 65536);
    return random_image(r, W, H, M, r.below(5));
}

static void c02(Rng& r)
{
    Image i = printable_image(r);
    int bad = r.below(12);
    bool valid = true;
    if (bad == 0)
    {
        i.data[r.below(i.data.size())] = i.max_value + 1 + r.below(5);
        valid = false;
    }
    if (bad == 1)
    {
        i.max_value = 0;
        valid = false;
    }
    if (bad == 2)
    {
        i.width = 0;
        i.data.clear();
        valid = false;
    }
    info = show(i);
    digest(info);
    std::ostringstream out;
    auto held = std::make_shared<Image>(i);
    PGM_IO writer;
    if (r.chance(50))
    {
        writer = PGM_IO{held};
    }
    else
    {
        writer.set_image(held);
    }
    if (bad == 3)
    {
        writer = PGM_IO{};
        valid = false;
    }
    out << writer;
    std::string text = out.str();
    info += "\ntext:\n" + text.substr(0, 4000);
    REQUIRE(same_image(*held, i), "writing changed the image");
    if (!valid)
    {
        REQUIRE(text.empty(), "an absent or invalid image was written");
        return;
    }
    ++interesting;
    // own reading of the text
    std::istringstream tokens(text);
    std::string magic;
    tokens >> magic;
    REQUIRE(magic == "P2", "magic word is `" << magic << "`");
    std::vector<U> all;
    std::string w;
    while (tokens >> w)
    {
        REQUIRE(w.find_first_not_of("0123456789") == std::string::npos
                    && w.size() < 19,
                "unexpected text `" << w << "`");
        all.push_back(std::stoul(w));
    }
    REQUIRE(all.size() == 3 + i.data.size(),
            all.size() << " numbers, expected " << 3 + i.data.size());
    REQUIRE(all[0] == i.width && all[1] == i.height && all[2] == i.max_value,
            "wrong header");
    for (size_t k = 0; k < i.data.size(); ++k)
    {
        REQUIRE(all[3 + k] == i.data[k], "pixel " << k << " is " << all[3 + k]
                                                  << ", expected "
                                                  << i.data[k]);
    }
    std::istringstream lines(text);
    while (std::getline(lines, w))
    {
        REQUIRE(w.size() <= 70, "line of " << w.size() << " characters");
    }
    // the library's reading
    std::istringstream in(text);
    PGM_IO reader;
    in >> reader;
    REQUIRE(!in.fail(), "the written text is not read back");
    REQUIRE(reader.get_image() != nullptr, "no image was read back");
    REQUIRE(same_image(*reader.get_image(), i), "another image is read back: "
            << show(*reader.get_image()));
}

static std::string comment(Rng& r, bool newline);

static std::string gap(Rng& r, bool comments)
{
    static const std::vector<std::string> ws{" ", "\n", "\t", "  ", "\n\n",
                                             "\r\n", " \n ", "\v", "\f"};
    static const std::vector<std::string> cs{
        "#\n", "# comment\n", "#comment 12 13\n", "##\n", "# P2\n",
        "#1\n", "# # #\n", "#\t5\n", "#x\n#y\n", "#\n\n", "# 7\n # 8\n"};
    std::string s = r.chance(70) ? " " : r.pick(ws);
    if (r.below(60) == 0)
    {
        U n = r.chance(80) ? r.below(20) : r.below(3000);
        for (U k = 0; k < n; ++k)
        {
            s += " \n\t\v\f\r"[r.below(6)];
        }
    }
    while (comments && r.chance(15))
    {
        s += r.chance(70) ? r.pick(cs) : comment(r, true);
        if (r.chance(30))
        {
            s += r.pick(ws);
        }
    }
    return s;
}

// a comment of arbitrary text
static std::string comment(Rng& r, bool newline)
{
    static const std::vector<U> lengths{0, 1, 3, 10, 50, 69, 70, 71, 100, 127,
                                        128, 255, 256, 257, 1000, 5000};
    U n = r.chance(70) ? r.below(12) : r.pick(lengths) + r.below(3);
    std::string s = "#";
    static const char some[] = "#  0123456789P2\t\r-+abc\f\v\x01\x7f\xff\xe9";
    for (U k = 0; k < n; ++k)
    {
        s += some[r.below(sizeof some - 1)];
    }
    return newline ? s + "\n" : s;
}

static void c03(Rng& r)
{
    U W = r.chance(85) ? size_value(r, 1, 5) : size_value(r, 0, 40);
    U H = r.chance(85) ? size_value(r, 1, 4) : size_value(r, 0, 40);
    static const std::vector<U> maxima{0, 1, 9, 255, 65535, 65536};
    U M = r.chance(80) ? r.pick(maxima) : size_value(r, 0, 65536);
    Image i{W, H, M, ULONG_ARRAY(W * H)};
    for (U& v : i.data)
    {
        v = r.chance(97) ? r.range(0, M) : r.chance(50) ? M + 1 : ~0ul;
    }
    bool comments = r.chance(60);
    std::vector<std::string> tok{"P2", std::to_string(W), std::to_string(H),
                                 std::to_string(M)};
    for (U v : i.data)
    {
        tok.push_back((r.chance(3) ? "0" : "") + std::to_string(v));
    }
    bool ok = true;
    int mut = r.below(16);
    std::string tail;
    static const std::vector<std::string> tails{"", "\n", " ", "\n\n", "#",
        "# end", "#end\n", "\n# end\n", " # a\n# b", "\n#\n\n", "\t\n "};
    tail = r.pick(tails);
    while (r.chance(20))
    {
        tail += "\n" + comment(r, r.chance(50));
        tail += r.chance(50) ? "\n" : "";
    }
    if (!tail.empty() && tail[0] == '#')
    {
        tail = " " + tail;
    }
    switch (mut)
    {
    case 0:
    {
        static const std::vector<std::string> magics{"P1", "P5", "p2", "P22",
            "P", "2", "P2.", "XP2", "P3", "2P"};
        tok[0] = r.pick(magics);
        ok = false;
        break;
    }
    case 1:
    {
        // truncated: some of the numbers are missing
        size_t keep = r.below(tok.size());
        tok.resize(keep);
        ok = false;
        break;
    }
    case 2:
    case 3:
    {
        static const std::vector<std::string> words{"abc", "x1", "--1", "P2",
            "_", "!", "e5", "\"1\"", ".", "one", "nan"};
        tok[1 + r.below(tok.size() - 1)] = r.pick(words);
        ok = false;
        break;
    }
    case 4:
    case 5:
    {
        static const std::vector<std::string> big{
            "18446744073709551616", "99999999999999999999999",
            "340282366920938463463374607431768211456",
            "18446744073709551617", "100000000000000000000"};
        tok[1 + r.below(tok.size() - 1)] = r.pick(big);
        ok = false;
        break;
    }
    case 6:
    {
        static const std::vector<std::string> big{"65537", "65538", "70000",
            "131072", "4294967296", "4294967297", "18446744073709551615"};
        tok[3] = r.pick(big);
        ok = false;
        break;
    }
    case 7:
    case 8:
    {
        static const std::vector<std::string> junk{"1", "x", "0", "P2", "-",
            "12 13", "# c\n9", "\n7\n", "5 # c", "#c\nx", "@", "z\n\n",
            "  # a\n# b\n q", "\n\n\n3"};
        tail = gap(r, false) + r.pick(junk);
        ok = false;
        break;
    }
    case 9:
    {
        // products that wrap around or exceed every array
        static const std::vector<std::pair<const char*, const char*>> dims{
            {"4294967296", "4294967296"}, {"9223372036854775808", "2"},
            {"18446744073709551615", "18446744073709551615"},
            {"6148914691236517206", "3"}, {"2", "9223372036854775809"},
            {"4294967297", "4294967296"}, {"3074457345618258603", "6"}};
        auto dm = r.pick(dims);
        tok[1] = dm.first;
        tok[2] = dm.second;
        ok = false;
        break;
    }
    default:
        break;
    }
    std::string text = r.chance(30) ? gap(r, comments) : "";
    for (size_t k = 0; k < tok.size(); ++k)
    {
        text += (k ? gap(r, comments) : "") + tok[k];
    }
    text += tail;
    info = "expected " + std::string(ok ? "acceptance" : "rejection")
        + ", text:\n" + text;
    digest(text);
    std::istringstream in(text);
    PGM_IO reader;
    std::shared_ptr<Image> before;
    Image copy{0, 0, 0, {}};
    int prior = r.below(3);
    if (prior == 1)
    {
        before = std::make_shared<Image>(Image{2, 1, 7, {3, 4}});
        reader.set_image(before);
        copy = *before;
    }
    else if (prior == 2)
    {
        std::istringstream first("P2 3 1 9 1 2 3");
        first >> reader;
        REQUIRE(!first.fail() && reader.get_image(), "P2 3 1 9 1 2 3 is "
                                                     "rejected");
        before = reader.get_image();
        copy = Image{3, 1, 9, {1, 2, 3}};
    }
    in >> reader;
    REQUIRE(in.fail() == !ok, (ok ? "a well-formed file was rejected"
                                  : "a malformed file was accepted"));
    if (!ok)
    {
        REQUIRE(reader.get_image() == before,
                "the held image was replaced by a failed read");
    }
    else
    {
        REQUIRE(reader.get_image() != nullptr, "no image");
        REQUIRE(same_image(*reader.get_image(), i), "another image was read: "
                << show(*reader.get_image()));
        ++interesting;
    }
    if (before)
    {
        REQUIRE(same_image(*before, copy), "the image held before changed");
    }
}

static void c04_large(Rng& r)
{
    // the positions alone: no tables are allocated
    Problem p;
    for (;;)
    {
        p.W = r.chance(50) ? 1 + r.below(1ul << r.range(2, 24))
                           : size_value(r, 2, 1ul << 20);
        p.H = r.chance(50) ? 1 + r.below(1ul << r.range(1, 24))
                           : size_value(r, 1, 1ul << 20);
        p.D = r.chance(50) ? 1 + r.below(1ul << r.range(2, 20))
                           : size_value(r, 2, 1ul << 16);
        p.D = std::min(p.D, p.W);
        if (p.W < 2 || p.D < 2)
        {
            continue;
        }
        if (double(p.W) * double(p.H) * double(p.D) * 4 < 1e17)
        {
            break;
        }
    }
    p.g.left.width = p.g.right.width = p.W;
    p.g.left.height = p.g.right.height = p.H;
    p.g.left.max_value = p.g.right.max_value = 1;
    p.g.disparity_levels = p.D;
    info = "sizes " + std::to_string(p.W) + "x" + std::to_string(p.H) + "x"
        + std::to_string(p.D);
    digest(info);
    std::unordered_map<U, U> seen[4];
    U n = 20000;
    if (p.W * p.H * p.D > (1ul << 32))
    {
        n = 300000;
    }
    auto coord = [&r](U m) {
        U k = r.below(8);
        return k == 0 ? 0 : k == 1 ? m - 1 : k == 2 ? std::min(m - 1,
            r.below(4)) : r.below(m);
    };
    bool full = r.chance(20);
    n = full ? n : 2000;
    for (U j = 0; j < n; ++j)
    {
        U x = coord(p.W), y = coord(p.H), d = coord(p.D), k = r.below(4);
        Node node{{x, y}, d};
        U id[4] = {x * p.H + y, (x * p.H + y) * p.D + d,
                   (x * p.H + y) * 4 + k, ((x * p.H + y) * p.D + d) * 4 + k};
        U idx[4] = {ix::pixel_index(&p.g.right, {x, y}),
                    ix::node_index(&p.g, node),
                    ix::neighborhood_index_fast(&p.g, {x, y}, k),
                    ix::reparametrization_index_fast(&p.g, node, k)};
        U size[4] = {p.W * p.H, p.W * p.H * p.D, p.W * p.H * 4,
                     p.W * p.H * p.D * 4};
        static const char* names[4] = {"pixel", "node", "neighborhood",
                                       "reparametrization element"};
        for (int q = 0; q < 4; ++q)
        {
            REQUIRE(idx[q] < size[q], "position " << idx[q] << " of "
                    << names[q] << " (" << x << ", " << y << ", " << d << ", "
                    << k << ") exceeds the table of " << size[q]);
            auto f = seen[q].emplace(idx[q], id[q]);
            REQUIRE(f.first->second == id[q], "two elements (" << names[q]
                    << ") share position " << idx[q]);
        }
    }
    ++interesting;
}

static void c04(Rng& r)
{
    if (r.chance(2))
    {
        c04_large(r);
        return;
    }
    Problem p = random_problem(r, 400);
    digest(info);
    for (double& v : p.g.reparametrization)
    {
        v = double(&v - &p.g.reparametrization[0]);
    }
    info += "(reparametrization element i holds i)";
    std::set<U> pix, nod, nb, rep;
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
        {
            U i = ix::pixel_index(&p.g.right, {x, y});
            REQUIRE(i < p.W * p.H, "pixel position out of range");
            REQUIRE(pix.insert(i).second, "two pixels share position " << i);
            REQUIRE(ix::pixel_value(&p.g.right, {x, y}) == p.g.right.data[i],
                    "pixel value differs from the data at its position");
            REQUIRE(ix::pixel_value(&p.g.left, {x, y})
                        == p.g.left.data[ix::pixel_index(&p.g.left, {x, y})],
                    "pixel value differs from the data at its position");
            for (U k = 0; k < 4; ++k)
            {
                U j = ix::neighborhood_index_fast(&p.g, {x, y}, k);
                REQUIRE(j < p.W * p.H * 4, "neighborhood out of range");
                REQUIRE(nb.insert(j).second, "two neighborhoods share position "
                        << j);
                U x2, y2;
                if (neighbor_of(p, x, y, k, x2, y2))
                {
                    REQUIRE(ix::neighborhood_index(&p.g, {x, y}, {x2, y2})
                                == j, "neighborhood_index disagrees");
                    REQUIRE(ix::neighborhood_index_slow(&p.g, Edge{
                                {{x, y}, r.below(p.D)},
                                {{x2, y2}, r.below(p.D)}}) == j,
                            "neighborhood_index_slow disagrees");
                }
            }
            for (U d = 0; d < p.D; ++d)
            {
                Node n{{x, y}, d};
                U j = ix::node_index(&p.g, n);
                REQUIRE(j < p.W * p.H * p.D, "node position out of range");
                REQUIRE(nod.insert(j).second, "two nodes share position " << j);
                for (U k = 0; k < 4; ++k)
                {
                    U q = ix::reparametrization_index_fast(&p.g, n, k);
                    REQUIRE(q < p.g.reparametrization.size(),
                            "reparametrization position out of range");
                    REQUIRE(rep.insert(q).second,
                            "two reparametrization elements share position "
                            << q);
                    REQUIRE(ix::reparametrization_value_fast(&p.g, n, k)
                                == double(q),
                            "reparametrization_value_fast reads another "
                            "element");
                    U x2, y2;
                    if (!neighbor_of(p, x, y, k, x2, y2))
                    {
                        continue;
                    }
                    Edge e{n, {{x2, y2}, r.below(p.D)}};
                    REQUIRE(ix::reparametrization_index(&p.g, n, {x2, y2}) == q
                            && ix::reparametrization_index_slow(&p.g, e) == q,
                            "reparametrization positions disagree");
                    REQUIRE(ix::reparametrization_value(&p.g, n, {x2, y2})
                            == double(q)
                            && ix::reparametrization_value_slow(&p.g, e)
                            == double(q), "reparametrization values disagree");
                }
            }
        }
    ++interesting;
}

static void c05(Rng& r)
{
    static const std::vector<U> bases{0, 1, 2, 3, 10, 255, 256, 65535, 65536,
        0x7fffffff, 0x80000000ul, 0xffffffff, 0x100000000ul, 1ul << 40,
        1ul << 62, (1ul << 63) - 1, 1ul << 63, ~0ul - 1, ~0ul};
    auto coord = [&r]() {
        U k = r.below(4);
        return k == 0 ? r.pick(bases) : k == 1 ? size_value(r, 0, ~0ul - 1)
            : k == 2 ? r.below(20) : r.next() >> r.below(64);
    };
    U x = coord(), y = coord(), k = r.below(4);
    info = "pixel (" + std::to_string(x) + ", " + std::to_string(y)
        + ") neighbor number " + std::to_string(k);
    digest(info);
    if ((k == 0 && x == ~0ul) || (k == 1 && x == 0) || (k == 2 && y == ~0ul)
        || (k == 3 && y == 0))
    {
        return;
    }
    Pixel a{x, y}, b{x + DX[k], y + DY[k]};
    Pixel got = ix::neighbor_by_index(a, k);
    REQUIRE(got.x == b.x && got.y == b.y, "neighbor is (" << got.x << ", "
            << got.y << ")");
    U n = ix::neighbor_index(a, b);
    REQUIRE(n == k, "its number is computed as " << n);
    ++interesting;
}

static void c06(Rng& r)
{
    Problem p = random_problem(r, 400, false);
    digest(info);
    auto coord = [&r](U m) {
        static const std::vector<U> far{1ul << 32, 1ul << 63, ~0ul, ~0ul - 1,
            (1ul << 32) + 1, 0xffffffff, 1ul << 31};
        return r.chance(7) ? (r.chance(50) ? r.pick(far) : ~0ul - r.below(m))
                           : r.below(m + 2);
    };
    std::string base = info;
    for (int q = 0; q < 300; ++q)
    {
        U x = coord(p.W), y = coord(p.H), d = coord(p.D);
        U k = r.below(4);
        U x2 = x + DX[k], y2 = y + DY[k], d2 = coord(p.D);
        if (r.chance(40))
        {
            d2 = d + r.below(5) - 2;
        }
        if (r.chance(15))
        {
            x2 = coord(p.W);
            y2 = coord(p.H);
        }
        if (r.chance(5))
        {
            x2 = x + r.below(5) - 2;
            y2 = y + r.below(5) - 2;
        }
        std::ostringstream o;
        o << "node (" << x << ", " << y << ", " << d << ") neighbor (" << x2
          << ", " << y2 << ", " << d2 << ") number " << k;
        info = base + o.str();
        bool n = node_in(p, x, y, d);
        REQUIRE(ck::node_exists(&p.g, {{x, y}, d}) == n,
                "node_exists, expected " << n);
        bool adjacent = false;
        for (int j = 0; j < 4; ++j)
        {
            U a, b;
            adjacent = adjacent || (pixel_in(p, x, y) && neighbor_of(
                p, x, y, j, a, b) && a == x2 && b == y2);
        }
        REQUIRE(ck::neighborhood_exists(&p.g, {x, y}, {x2, y2}) == adjacent,
                "neighborhood_exists, expected " << adjacent);
        if (pixel_in(p, x, y))
        {
            U a, b;
            bool e = neighbor_of(p, x, y, k, a, b);
            REQUIRE(ck::neighborhood_exists_fast(&p.g, {x, y}, k) == e,
                    "neighborhood_exists_fast, expected " << e);
        }
        Edge e{{{x, y}, d}, {{x2, y2}, d2}}, f{e.neighbor, e.node};
        bool ee = edge_in(p, e);
        REQUIRE(ck::edge_exists(&p.g, e) == ee, "edge_exists, expected "
                << ee);
        REQUIRE(ck::edge_exists(&p.g, f) == ee,
                "edge_exists in the other direction, expected " << ee);
        interesting += ee;
    }
}

static void c07(Rng& r)
{
    Problem p = random_problem(r, 200, false);
    Image l = p.g.left, rt = p.g.right;
    U D = p.D;
    double c = p.g.cleanness, s = p.g.smoothness;
    static const std::vector<double> odd{0, -0.0, -1, -1e-300, -1e-17, 1e-17,
        2.220446049250313e-16, 2.220446049250312e-16, 1e-15, 1, -5, 1e300,
        std::numeric_limits<double>::epsilon() / 2,
        std::numeric_limits<double>::quiet_NaN()};
    for (int m = r.below(3); m > 0; --m)
    {
        Image& i = r.chance(50) ? l : rt;
        switch (r.below(14))
        {
        case 0:
            i.max_value += 1;
            break;
        case 1:
            i.data[r.below(i.data.size())] = i.max_value + 1 + r.below(3);
            break;
        case 2:
            D = r.below(2);
            break;
        case 3:
            D = p.W + r.below(3);
            break;
        case 4:
            c = r.pick(odd);
            break;
        case 5:
            s = r.pick(odd);
            break;
        case 6:
            c = r.pick(odd);
            s = r.pick(odd);
            break;
        case 7:
            i = random_image(r, p.W + 1, p.H, i.max_value, 0);
            break;
        case 8:
            i = random_image(r, p.W, p.H + 1, i.max_value, 0);
            break;
        case 9:
            i = random_image(r, p.H, p.W, i.max_value, 0);
            break;
        case 10:
            i.max_value = 0;
            std::fill(i.data.begin(), i.data.end(), 0);
            break;
        case 11:
            l.max_value = rt.max_value = 0;
            std::fill(l.data.begin(), l.data.end(), 0);
            std::fill(rt.data.begin(), rt.data.end(), 0);
            break;
        case 12:
            l = random_image(r, 1, p.H, l.max_value, 0);
            rt = random_image(r, 1, p.H, l.max_value, 0);
            break;
        default:
            D = size_value(r, 0, 2 * p.W);
            break;
        }
    }
    auto valid = [](const Image& i) {
        bool ok = i.width && i.height && i.max_value;
        for (U v : i.data)
        {
            ok = ok && v <= i.max_value;
        }
        return ok;
    };
    const double eps = std::numeric_limits<double>::epsilon();
    bool ok = valid(l) && valid(rt) && l.width == rt.width
        && l.height == rt.height && l.max_value == rt.max_value && D >= 2
        && D <= l.width && c >= 0 && s >= 0 && (c >= eps || s >= eps);
    std::ostringstream o;
    o.precision(17);
    o << "left " << show(l) << "\nright " << show(rt) << "\nlevels " << D
      << " cleanness " << c << " smoothness " << s;
    info = o.str();
    digest(info);
    try
    {
        DisparityGraph g{l, rt, D, c, s};
        REQUIRE(ok, "an inconsistent problem was accepted");
        ++interesting;
        REQUIRE(same_image(g.left, l) && same_image(g.right, rt),
                "the images are not kept");
        REQUIRE(g.disparity_levels == D && g.cleanness == c
                && g.smoothness == s, "the parameters are not kept");
        REQUIRE(g.reparametrization.size() == l.width * l.height * 4 * D,
                "reparametrization of " << g.reparametrization.size());
        for (double v : g.reparametrization)
        {
            REQUIRE(v == 0, "the reparametrization is not zero");
        }
    }
    catch (std::invalid_argument& e)
    {
        REQUIRE(!ok, "a consistent problem was rejected: " << e.what());
    }
}

// a problem with many levels; pairs of nodes are sampled
static void c08_wide(Rng& r)
{
    static const std::vector<U> widths{130, 200, 257, 258, 300, 520};
    Problem p;
    p.W = r.pick(widths);
    p.H = p.W > 300 ? 1 : r.range(1, 2);
    p.D = r.chance(70) ? p.W : r.range(p.W / 2, p.W);
    p.g.left = random_image(r, p.W, p.H, 255, r.below(2));
    p.g.right = random_image(r, p.W, p.H, 255, r.below(2));
    p.g.disparity_levels = p.D;
    p.g.cleanness = random_weight(r);
    p.g.smoothness = 1 + random_weight(r);
    p.g.reparametrization = FLOAT_ARRAY(p.W * p.H * 4 * p.D, 0.0);
    for (int q = 0; q < 200; ++q)
    {
        p.g.reparametrization[r.below(p.g.reparametrization.size())] =
            double(r.below(4000)) - 2000;
    }
    info += show(p.g) + "\n";
    for (int q = 0; q < 4000; ++q)
    {
        U x = r.below(p.W), y = r.below(p.H), x2, y2;
        int k = r.below(4);
        if (!neighbor_of(p, x, y, k, x2, y2))
        {
            continue;
        }
        U d = r.below(std::min(p.D, p.W - x));
        U d2 = r.below(std::min(p.D, p.W - x2));
        Edge e{{{x, y}, d}, {{x2, y2}, d2}};
        double w = edge_pen(p, e), v = dg::edge_penalty(&p.g, e);
        REQUIRE(about(v, w), "penalty of the edge from " << at(x, y, d)
                << " to " << at(x2, y2, d2) << " is " << v << ", expected "
                << w);
        w = node_pen(p, x, y, d);
        v = dg::node_penalty(&p.g, {{x, y}, d});
        REQUIRE(about(v, w), "penalty of " << at(x, y, d) << " is " << v
                << ", expected " << w);
    }
    ++interesting;
}

static void c08(Rng& r)
{
    if (r.below(400) == 0)
    {
        c08_wide(r);
        return;
    }
    Problem p = random_problem(r, 200);
    digest(info);
    if (r.chance(15))
    {
        // large intensities
        U M = 1ul << r.range(20, 25);
        for (Image* i : {&p.g.left, &p.g.right})
        {
            i->max_value = M;
            for (U& v : i->data)
            {
                v = r.chance(30) ? M : r.range(0, M);
            }
        }
        info += "large intensities: " + show(p.g) + "\n";
    }
    FORALL_NODES(p)
    {
        double want = node_pen(p, x, y, d);
        double got = dg::node_penalty(&p.g, {{x, y}, d});
        REQUIRE(about(got, want), "penalty of " << at(x, y, d) << " is " << got
                << ", expected " << want);
        for (int k = 0; k < 4; ++k)
        {
            U x2, y2;
            if (!neighbor_of(p, x, y, k, x2, y2))
            {
                continue;
            }
            for (U d2 = 0; d2 < p.D; ++d2)
            {
                Edge e{{{x, y}, d}, {{x2, y2}, d2}}, f{e.neighbor, e.node};
                if (!node_in(p, x2, y2, d2))
                {
                    continue;
                }
                double w = edge_pen(p, e);
                double v = dg::edge_penalty(&p.g, e);
                REQUIRE(about(v, w), "penalty of the edge from " << at(x, y, d)
                        << " to " << at(x2, y2, d2) << " is " << v
                        << ", expected " << w);
                v = dg::edge_penalty(&p.g, f);
                REQUIRE(about(v, w), "penalty of the edge from "
                        << at(x2, y2, d2) << " to " << at(x, y, d) << " is "
                        << v << ", expected " << w);
            }
        }
    }
    ++interesting;
}

static void c09(Rng& r)
{
    Problem p = random_problem(r, 200);
    digest(info);
    LowestPenalties l(&p.g);
    REQUIRE(l.graph == &p.g, "another graph is referenced");
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
        {
            double w = lowest_node(p, x, y);
            double a = lpn::calculate_lowest_pixel_penalty(&p.g, {x, y});
            double b = lpn::lowest_pixel_penalty(&l, {x, y});
            REQUIRE(about(a, w) && about(b, w), "lowest penalty of pixel (" << x
                    << ", " << y << ") is " << a << " / " << b << ", expected "
                    << w);
            for (int k = 0; k < 4; ++k)
            {
                U x2, y2;
                if (!neighbor_of(p, x, y, k, x2, y2))
                {
                    continue;
                }
                double e = lowest_edge(p, x, y, x2, y2);
                Edge ed{{{x, y}, 0}, {{x2, y2}, 0}};
                double v[] = {
                    lpn::calculate_lowest_neighborhood_penalty(
                        &p.g, {x, y}, {x2, y2}),
                    lpn::calculate_lowest_neighborhood_penalty_fast(&p.g, ed),
                    lpn::calculate_lowest_neighborhood_penalty_slow(
                        &p.g, {x, y}, U(k)),
                    lpn::lowest_neighborhood_penalty_fast(
                        &l, {x, y}, {x2, y2}),
                    lpn::lowest_neighborhood_penalty(&l, ed)};
                for (int q = 0; q < 5; ++q)
                {
                    REQUIRE(about(v[q], e), "lowest penalty (variant " << q
                            << ") between (" << x << ", " << y << ") and ("
                            << x2 << ", " << y2 << ") is " << v[q]
                            << ", expected " << e);
                }
            }
        }
    ++interesting;
}

static void note_csp(const Problem& p, const Tables& t, double th,
                     const Set& s)
{
    std::ostringstream o;
    o.precision(17);
    o << "threshold " << th << "\navailable:\n" << show_set(p, t, s);
    info += o.str();
    digest(info);
}

static void c10(Rng& r)
{
    Problem p = random_problem(r, 200);
    Tables t = tabulate(p);
    LowestPenalties l(&p.g);
    double th = random_threshold(r, p, t);
    Set want = initial_set(p, t, th);
    note_csp(p, t, th, want);
    ConstraintGraph c(&p.g, &l, th);
    REQUIRE(c.threshold == th && c.disparity_graph == &p.g
            && c.lowest_penalties == &l, "the problem is not kept");
    Set got = read_set(p, t, c);
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
            for (U d = 0; d < p.D; ++d)
            {
                U n = t.node(p, x, y, d);
                REQUIRE(got[n] == want[n], at(x, y, d) << " is initially "
                        << (got[n] ? "available" : "unavailable"));
            }
    interesting += any(want);
    Set s = want;
    int ops = r.below(30);
    for (int q = 0; q < ops; ++q)
    {
        U x = r.below(p.W), y = r.below(p.H), d = r.below(p.D);
        U k = r.below(20);
        if (k == 0)
        {
            cgn::make_all_nodes_unavailable(&c);
            std::fill(s.begin(), s.end(), 0);
        }
        else
        {
            if (k < 12)
            {
                cgn::make_node_available(&c, {{x, y}, d});
            }
            else
            {
                cgn::make_node_unavailable(&c, {{x, y}, d});
            }
            s[t.node(p, x, y, d)] = k < 12;
        }
        REQUIRE(read_set(p, t, c) == s, "update " << q << " of " << at(x, y, d)
                << " changed other nodes or not this one");
    }
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
            for (U d = 0; d < p.D; ++d)
                for (int k = 0; k < 4; ++k)
                {
                    U x2, y2;
                    if (!neighbor_of(p, x, y, k, x2, y2))
                    {
                        continue;
                    }
                    for (U d2 = 0; d2 < p.D; ++d2)
                    {
                        Edge e{{{x, y}, d}, {{x2, y2}, d2}};
                        bool w = s[t.node(p, x, y, d)]
                            && s[t.node(p, x2, y2, d2)]
                            && edge_ok(p, t, th, x, y, d, k, d2);
                        REQUIRE(cgn::is_edge_available(&c, e) == w,
                                "edge from " << at(x, y, d) << " to "
                                << at(x2, y2, d2) << " should be "
                                << (w ? "" : "un") << "available");
                    }
                }
}

struct Csp
{
    Problem p;
    Tables t;
    std::unique_ptr<LowestPenalties> l;
    double th;
    Set s, great;
};

static void make_csp(Rng& r, Csp& c, U budget = 160)
{
    c.p = random_problem(r, r.chance(10) ? budget * 4 : budget);
    c.t = tabulate(c.p);
    c.l.reset(new LowestPenalties(&c.p.g));
    c.th = random_threshold(r, c.p, c.t);
    c.s = random_availability(r, c.p, c.t, c.th);
    note_csp(c.p, c.t, c.th, c.s);
    c.great = greatest_closed(c.p, c.t, c.th, c.s);
}

static void solved(Rng& r, bool soundness)
{
    Csp c;
    make_csp(r, c);
    DisparityGraph copy = c.p.g;
    LowestPenalties lcopy = *c.l;
    ConstraintGraph g(&c.p.g, c.l.get(), c.th);
    write_set(c.p, c.t, g, c.s);
    if (soundness)
    {
        // single steps first: they may not remove supported nodes either
        int steps = r.below(4);
        Set cur = c.s;
        for (int q = 0; q < steps; ++q)
        {
            U x = r.below(c.p.W), y = r.below(c.p.H), d = r.below(c.p.D);
            switch (r.below(4))
            {
            case 0:
                if (node_in(c.p, x, y, d))
                {
                    bool w = cur[c.t.node(c.p, x, y, d)]
                        && !supported(c.p, c.t, c.th, cur, x, y, d);
                    REQUIRE(cgn::should_remove_node(&g, {{x, y}, d}) == w,
                            "should_remove_node of " << at(x, y, d)
                            << ", expected " << w);
                }
                break;
            case 1:
                cgn::csp_process_pixel(&g, {x, y});
                break;
            case 2:
                cgn::csp_solution_iteration(&g, 1, 0);
                break;
            default:
                break;
            }
            cur = read_set(c.p, c.t, g);
        }
    }
    bool answer = cgn::solve_csp(&g);
    Set got = read_set(c.p, c.t, g);
    REQUIRE(same_graph(copy, c.p.g) && lcopy.pixels == c.l->pixels
            && lcopy.neighborhoods == c.l->neighborhoods && g.threshold == c.th,
            "the problem was changed");
    for (U x = 0; x < c.p.W; ++x)
        for (U y = 0; y < c.p.H; ++y)
            for (U d = 0; d < c.p.D; ++d)
            {
                U n = c.t.node(c.p, x, y, d);
                if (soundness)
                {
                    REQUIRE(!got[n] || c.s[n], at(x, y, d) << " was added");
                    REQUIRE(got[n] || !c.great[n], at(x, y, d)
                            << " belongs to a closed set but was removed");
                }
                else
                {
                    REQUIRE(!got[n] || c.great[n], at(x, y, d)
                            << " is left without support or next to an empty "
                               "pixel");
                }
            }
    if (!soundness)
    {
        REQUIRE(answer == any(got), "answer " << answer << " but nodes "
                << (any(got) ? "are" : "are not") << " left");
        REQUIRE(answer == any(c.great), "answer " << answer << ", expected "
                << any(c.great));
        REQUIRE(got == c.great || !soundness, "");
        REQUIRE(cgn::check_nodes_left(&g) == any(got), "check_nodes_left");
        Set again = got;
        bool answer2 = cgn::solve_csp(&g);
        REQUIRE(read_set(c.p, c.t, g) == again && answer2 == answer,
                "solving again changed the result");
    }
    interesting += any(c.great) && c.great != c.s;
}

static void c11(Rng& r) { solved(r, true); }

static void c12(Rng& r) { solved(r, false); }

static int team = 1;

extern "C" int omp_get_num_threads() { return team; }
extern "C" int omp_get_max_threads() { return team; }
extern "C" int omp_get_thread_num() { return 0; }

static void c20(Rng& r)
{
    Csp c;
    make_csp(r, c);
    U J = r.chance(15) ? 1 + r.below(20) : 1 + r.below(c.p.H + 2);
    info += "jobs " + std::to_string(J) + "\n";
    ConstraintGraph g(&c.p.g, c.l.get(), c.th);
    write_set(c.p, c.t, g, c.s);
    team = 1;
    Set cur = c.s;
    std::vector<U> order(J);
    for (U j = 0; j < J; ++j)
    {
        order[j] = j;
    }
    bool report = true;
    for (U pass = 0; report; ++pass)
    {
        REQUIRE(pass <= cur.size() + 1, "the passes do not end");
        report = false;
        if (r.chance(50))
        {
            for (U j = J - 1; j > 0; --j)
            {
                std::swap(order[j], order[r.below(j + 1)]);
            }
        }
        for (U j : order)
        {
            bool ret = cgn::csp_solution_iteration(&g, J, j);
            Set now = read_set(c.p, c.t, g);
            std::string who = "job " + std::to_string(j) + " in pass "
                + std::to_string(pass);
            bool left = any(now);
            for (U x = 0; x < c.p.W; ++x)
                for (U y = 0; y < c.p.H; ++y)
                {
                    bool mine = y % J == j, some = false;
                    for (U d = 0; d < c.p.D; ++d)
                    {
                        U n = c.t.node(c.p, x, y, d);
                        REQUIRE(!now[n] || cur[n], who << ": " << at(x, y, d)
                                << " was added");
                        REQUIRE(now[n] || !c.great[n], who << ": "
                                << at(x, y, d) << " belongs to a closed set "
                                   "but was removed");
                        REQUIRE(mine || !left || now[n] == cur[n], who << ": "
                                << at(x, y, d) << " of another job was "
                                   "removed");
                        REQUIRE(!mine || ret || !left || !now[n]
                                || supported(c.p, c.t, c.th, now, x, y, d),
                                who << " reports no change but " << at(x, y, d)
                                << " lacks support");
                        some = some || now[n];
                    }
                    REQUIRE(!mine || ret || !left || some, who << " reports "
                            "no change but pixel (" << x << ", " << y
                            << ") is empty");
                }
            REQUIRE(!ret || now != cur, who << " reports a change that did "
                    "not happen");
            REQUIRE(ret || !left || now == cur, who << " does not report a "
                    "change");
            report = report || ret;
            cur = now;
        }
    }
    REQUIRE(cur == c.great, "the jobs leave other nodes than one job does");
    // the loop of the library, with this number of threads
    ConstraintGraph h(&c.p.g, c.l.get(), c.th);
    write_set(c.p, c.t, h, c.s);
    team = int(J);
    bool answer = cgn::solve_csp(&h);
    Set got = read_set(c.p, c.t, h);
    team = 1;
    for (U x = 0; x < c.p.W; ++x)
        for (U y = 0; y < c.p.H; ++y)
            for (U d = 0; d < c.p.D; ++d)
            {
                U n = c.t.node(c.p, x, y, d);
                REQUIRE(got[n] == c.great[n], at(x, y, d) << " is "
                        << (got[n] ? "left" : "removed") << " with " << J
                        << " threads");
            }
    REQUIRE(answer == any(c.great), "answer " << answer << " with " << J
            << " threads, expected " << any(c.great));
    interesting += any(c.great) && c.great != c.s && J > 1;
}

static bool same_list(const std::vector<double>& a,
                      const std::vector<double>& b)
{
    return a == b;
}

static std::string show_list(const std::vector<double>& v)
{
    std::ostringstream o;
    o.precision(17);
    for (double d : v)
    {
        o << " " << d;
    }
    return o.str();
}

static void c13(Rng& r)
{
    Problem p = random_problem(r, 160);
    digest(info);
    Tables t = tabulate(p);
    LowestPenalties l(&p.g);
    double shift = double(r.below(9)) - 4;
    for (int q = 0; q < 6; ++q)
    {
        U x = r.below(p.W), y = r.below(p.H), x2, y2;
        int k = r.below(4);
        std::set<double> w;
        for (U d = 0; d < p.D; ++d)
        {
            if (node_in(p, x, y, d))
            {
                w.insert(t.pen[t.node(p, x, y, d)] - shift);
            }
        }
        std::vector<double> want(w.begin(), w.end());
        auto got = lf::fetch_pixel_available_penalties(&p.g, {x, y}, shift);
        REQUIRE(same_list(got, want), "list of pixel (" << x << ", " << y
                << ") is" << show_list(got) << ", expected"
                << show_list(want));
        if (!neighbor_of(p, x, y, k, x2, y2))
        {
            continue;
        }
        w.clear();
        for (U d = 0; d < p.D; ++d)
        {
            for (double e : t.epen[t.node(p, x, y, d) * 4 + k])
            {
                if (e == e)
                {
                    w.insert(e - shift);
                }
            }
        }
        want.assign(w.begin(), w.end());
        Edge ed{{{x, y}, r.below(p.D)}, {{x2, y2}, r.below(p.D)}};
        got = lf::fetch_edge_available_penalties(&p.g, ed, shift);
        REQUIRE(same_list(got, want), "list of the neighborhood (" << x << ", "
                << y << ")-(" << x2 << ", " << y2 << ") is" << show_list(got)
                << ", expected" << show_list(want));
    }
    std::vector<double> want = all_differences(p, t);
    auto got = lf::fetch_available_penalties(&l);
    REQUIRE(same_list(got, want), "list is" << show_list(got) << ", expected"
            << show_list(want));
    ++interesting;
}

static void c14(Rng& r)
{
    Problem p = random_problem(r, 60);
    Tables t = tabulate(p);
    LowestPenalties l(&p.g);
    std::vector<double> all = all_differences(p, t), list = all;
    if (r.chance(60))
    {
        // any increasing list that ends with a solvable threshold
        list.clear();
        int keep = r.chance(30) ? 5 : r.chance(50) ? 20 : 60;
        for (double v : all)
        {
            if (r.chance(keep))
            {
                list.push_back(v);
            }
        }
        if (r.chance(30) && !list.empty())
        {
            list.resize(1 + r.below(std::min<size_t>(3, list.size())));
        }
        if (r.chance(20))
        {
            list.insert(list.begin(), all[0] - 1 - double(r.below(3)));
        }
    }
    auto solvable = [&](double th) {
        return any(greatest_closed(p, t, th, initial_set(p, t, th)));
    };
    if (list.empty() || !solvable(list.back()))
    {
        size_t lo = 0, hi = all.size() - 1;      // smallest solvable of all
        while (lo < hi)
        {
            size_t m = (lo + hi) / 2;
            solvable(all[m]) ? hi = m : lo = m + 1;
        }
        while (!list.empty() && list.back() >= all[lo])
        {
            list.pop_back();
        }
        U extra = r.below(3);
        for (size_t k = lo; k < all.size() && k <= lo + extra; ++k)
        {
            list.push_back(all[k]);
        }
    }
    info += "candidates" + show_list(list) + "\n";
    digest(info);
    size_t lo = 0, hi = list.size() - 1;
    while (lo < hi)
    {
        size_t m = (lo + hi) / 2;
        solvable(list[m]) ? hi = m : lo = m + 1;
    }
    double got = lf::calculate_minimal_consistent_threshold(&l, &p.g, list);
    REQUIRE(got == list[lo], "threshold " << got << ", expected " << list[lo]);
    interesting += lo > 0;
    // the full list offers a solvable threshold
    auto full = lf::fetch_available_penalties(&l);
    if (full == all)
    {
        REQUIRE(solvable(full.back()), "the largest threshold is not "
                                       "solvable");
    }
}

static void c15(Rng& r)
{
    Csp c;
    make_csp(r, c);
    ConstraintGraph g(&c.p.g, c.l.get(), c.th);
    write_set(c.p, c.t, g, c.s);
    U X = r.below(c.p.W), Y = r.below(c.p.H);
    info += "pixel (" + std::to_string(X) + ", " + std::to_string(Y) + ")";
    ConstraintGraph* ret = lf::choose_best_node(&g, {X, Y});
    REQUIRE(ret == &g || ret == nullptr, "another graph is returned");
    Set got = read_set(c.p, c.t, g);
    double low = std::numeric_limits<double>::infinity();
    U had = 0;
    for (U d = 0; d < c.p.D; ++d)
    {
        U n = c.t.node(c.p, X, Y, d);
        if (node_in(c.p, X, Y, d) && c.s[n])
        {
            ++had;
            low = std::min(low, c.t.pen[n]);
        }
    }
    U left = 0;
    for (U x = 0; x < c.p.W; ++x)
        for (U y = 0; y < c.p.H; ++y)
            for (U d = 0; d < c.p.D; ++d)
            {
                U n = c.t.node(c.p, x, y, d);
                if (x != X || y != Y)
                {
                    REQUIRE(got[n] == c.s[n], at(x, y, d)
                            << " of another pixel changed");
                    continue;
                }
                if (!got[n])
                {
                    continue;
                }
                ++left;
                REQUIRE(c.s[n], at(x, y, d) << " was not available before");
                REQUIRE(c.t.pen[n] == low, at(x, y, d) << " has penalty "
                        << c.t.pen[n] << ", the lowest one is " << low);
            }
    REQUIRE(left == (had ? 1 : 0), left << " nodes are left of " << had);
    interesting += had > 1;
}

static void c16(Rng& r)
{
    Csp c;
    make_csp(r, c);
    if (r.chance(40))
    {
        // the threshold the tool would use
        auto all = all_differences(c.p, c.t);
        size_t lo = 0, hi = all.size() - 1;
        while (lo < hi)
        {
            size_t m = (lo + hi) / 2;
            any(greatest_closed(c.p, c.t, all[m], initial_set(
                c.p, c.t, all[m]))) ? hi = m : lo = m + 1;
        }
        c.th = all[lo];
        c.s = initial_set(c.p, c.t, c.th);
        c.great = greatest_closed(c.p, c.t, c.th, c.s);
        note_csp(c.p, c.t, c.th, c.s);
    }
    ConstraintGraph g(&c.p.g, c.l.get(), c.th);
    write_set(c.p, c.t, g, c.s);
    if (r.chance(50))
    {
        cgn::solve_csp(&g);
    }
    ConstraintGraph* ret = lf::find_labeling(&g);
    REQUIRE(ret == nullptr || ret == &g, "another graph is returned");
    Set got = read_set(c.p, c.t, g);
    for (size_t n = 0; n < got.size(); ++n)
    {
        REQUIRE(!got[n] || c.s[n], "a node was added");
    }
    if (!any(c.great))
    {
        REQUIRE(ret == nullptr, "a labeling of an unsolvable problem");
        return;
    }
    if (!ret)
    {
        return;
    }
    ++interesting;
    std::vector<U> label(c.p.W * c.p.H);
    for (U x = 0; x < c.p.W; ++x)
        for (U y = 0; y < c.p.H; ++y)
        {
            U n = 0;
            for (U d = 0; d < c.p.D; ++d)
            {
                if (got[c.t.node(c.p, x, y, d)])
                {
                    ++n;
                    label[x * c.p.H + y] = d;
                }
            }
            REQUIRE(n == 1, n << " nodes are available at (" << x << ", " << y
                    << ")");
        }
    for (U x = 0; x < c.p.W; ++x)
        for (U y = 0; y < c.p.H; ++y)
            for (int k = 0; k < 4; ++k)
            {
                U x2, y2;
                if (neighbor_of(c.p, x, y, k, x2, y2))
                {
                    REQUIRE(edge_ok(c.p, c.t, c.th, x, y, label[x * c.p.H + y],
                                    k, label[x2 * c.p.H + y2]),
                            "the labels of (" << x << ", " << y << ") and ("
                            << x2 << ", " << y2 << ") are not consistent");
                }
            }
}

static void c17(Rng& r)
{
    Csp c;
    make_csp(r, c);
    std::vector<U> label(c.p.W * c.p.H);
    std::fill(c.s.begin(), c.s.end(), 0);
    for (U x = 0; x < c.p.W; ++x)
        for (U y = 0; y < c.p.H; ++y)
        {
            U d = r.below(std::min(c.p.D, c.p.W - x));
            if (r.chance(30))
            {
                d = std::min(c.p.D, c.p.W - x) - 1;
            }
            label[x * c.p.H + y] = d;
            c.s[c.t.node(c.p, x, y, d)] = 1;
        }
    bool ok = true;
    int defects = r.chance(50) ? 0 : 1 + r.below(2);
    while (defects--)
    {
        U x = r.below(c.p.W), y = r.below(c.p.H);
        if (r.chance(50))
        {
            for (U d = 0; d < c.p.D; ++d)
            {
                c.s[c.t.node(c.p, x, y, d)] = 0;
            }
        }
        else
        {
            c.s[c.t.node(c.p, x, y, r.below(std::min(c.p.D, c.p.W - x)))] = 1;
        }
    }
    for (U x = 0; x < c.p.W; ++x)
        for (U y = 0; y < c.p.H; ++y)
        {
            U n = 0;
            for (U d = 0; d < c.p.D; ++d)
            {
                if (c.s[c.t.node(c.p, x, y, d)])
                {
                    ++n;
                    label[x * c.p.H + y] = d;
                }
            }
            ok = ok && n == 1;
        }
    info = show(c.p.g) + "\navailable:\n" + show_set(c.p, c.t, c.s);
    ConstraintGraph g(&c.p.g, c.l.get(), c.th);
    write_set(c.p, c.t, g, c.s);
    try
    {
        Image m = lf::build_disparity_map(&g);
        REQUIRE(ok, "a map was built without exactly one label per pixel");
        REQUIRE(m.width == c.p.W && m.height == c.p.H
                && m.max_value == c.p.D && m.data.size() == c.p.W * c.p.H,
                "header of the map: " << m.width << "x" << m.height << " max "
                << m.max_value << " data " << m.data.size());
        for (U x = 0; x < c.p.W; ++x)
            for (U y = 0; y < c.p.H; ++y)
            {
                U v = ix::pixel_value(&m, {x, y});
                REQUIRE(v == label[x * c.p.H + y], "pixel (" << x << ", " << y
                        << ") is " << v << ", expected "
                        << label[x * c.p.H + y]);
            }
        ++interesting;
    }
    catch (std::logic_error& e)
    {
        REQUIRE(!ok, "a complete labeling was rejected: " << e.what());
    }
    REQUIRE(read_set(c.p, c.t, g) == c.s, "the constraint graph was changed");
}

static void c18(Rng& r)
{
    // every operation on one problem; sanitizers and assertions watch
    Csp c;
    make_csp(r, c, r.chance(10) ? 1200 : 160);
    DisparityGraph copy = c.p.g;
    std::vector<double> all;
    U what = r.below(6);
    ConstraintGraph g(&c.p.g, c.l.get(), c.th);
    if (what == 0)
    {
        all = lf::fetch_available_penalties(c.l.get());
        if (c.p.W * c.p.H * c.p.D <= 60)
        {
            lf::calculate_minimal_consistent_threshold(c.l.get(), &c.p.g, all);
        }
    }
    if (what == 1)
    {
        write_set(c.p, c.t, g, c.s);
        if (lf::find_labeling(&g))
        {
            lf::build_disparity_map(&g);
        }
    }
    if (what == 2)
    {
        write_set(c.p, c.t, g, c.s);
        try
        {
            lf::build_disparity_map(&g);
        }
        catch (std::logic_error&)
        {
        }
    }
    if (what == 3)
    {
        U jobs = 1 + r.below(c.p.H + 2), job = r.below(jobs + 1);
        info += "jobs " + std::to_string(jobs) + " job " + std::to_string(job);
        Set b = read_set(c.p, c.t, g);
        bool ch = cgn::csp_solution_iteration(&g, jobs, job);
        Set a = read_set(c.p, c.t, g);
        for (size_t n = 0; n < a.size(); ++n)
        {
            REQUIRE(!a[n] || b[n], "an iteration added a node");
        }
        REQUIRE(!ch || a != b, "an iteration reported a change but removed "
                               "nothing");
    }
    if (what == 4)
    {
        for (U x = 0; x < c.p.W; ++x)
            for (U y = 0; y < c.p.H; ++y)
            {
                cgn::csp_process_pixel(&g, {x, y});
                lf::choose_best_node(&g, {x, y});
                for (U d = 0; d < c.p.D; ++d)
                {
                    cgn::should_remove_node(&g, {{x, y}, d});
                    for (U k = 0; k < 4; ++k)
                    {
                        U x2, y2;
                        if (neighbor_of(c.p, x, y, k, x2, y2))
                        {
                            for (U d2 = 0; d2 < c.p.D; ++d2)
                            {
                                Edge e{{{x, y}, d}, {{x2, y2}, d2}};
                                cgn::is_edge_available(&g, e);
                                dg::edge_penalty(&c.p.g, e);
                            }
                        }
                    }
                }
            }
    }
    if (what == 5)
    {
        cgn::solve_csp(&g);
        sp::image::image_valid(&c.p.g.left);
    }
    REQUIRE(same_graph(copy, c.p.g), "the problem was changed");
    REQUIRE(g.disparity_graph == &c.p.g && g.lowest_penalties == c.l.get()
            && g.threshold == c.th
            && g.nodes_availability.size() == c.p.W * c.p.H * c.p.D,
            "the constraint graph was damaged");
    ++interesting;
}

#ifdef WITH_MAIN
static std::string scratch;

static void put(const std::string& name, const std::string& text)
{
    std::ofstream f(scratch + "/" + name);
    f << text;
}

static std::string pgm(const Image& i)
{
    std::ostringstream o;
    o << "P2\n" << i.width << " " << i.height << "\n" << i.max_value << "\n";
    for (U y = 0; y < i.height; ++y)
    {
        for (U x = 0; x < i.width; ++x)
        {
            o << i.data[i.width * y + x] << (x % 10 == 9 ? "\n" : " ");
        }
        o << "\n";
    }
    return o.str();
}

static void c19(Rng& r)
{
    Problem p = random_problem(r, 60, false);
    p.g.left.max_value = p.g.right.max_value
        = std::min<U>(p.g.left.max_value, 65536);
    for (Image* i : {&p.g.left, &p.g.right})
    {
        for (U& v : i->data)
        {
            v = std::min(v, i->max_value);
        }
    }
    std::vector<std::string> args{"stereo_parallel"};
    bool valid = true;
    auto option = [&](const char* lng, const char* shrt, std::string v) {
        if (r.chance(50))
        {
            args.push_back(std::string("--") + lng + "=" + v);
        }
        else
        {
            args.push_back(std::string("-") + shrt);
            args.push_back(v);
        }
    };
    std::string out = scratch + "/out.pgm";
    unlink(out.c_str());
    std::string L = pgm(p.g.left), R = pgm(p.g.right);
    p.g.cleanness = p.g.smoothness = 1;
    U bad = r.below(24);
    if (bad == 0)
    {
        R += "garbage";
        valid = false;
    }
    if (bad == 1)
    {
        L = "P5" + L.substr(2);
        valid = false;
    }
    if (bad == 2)
    {
        Image other = random_image(r, p.W, p.H + 1, p.g.left.max_value, 0);
        R = pgm(other);
        valid = false;
    }
    if (bad == 3)
    {
        L = L.substr(0, 3 + r.below(L.size() / 2));
        while (!L.empty() && L.back() != ' ' && L.back() != '\n')
        {
            L.pop_back();
        }
        valid = false;
    }
    put("left.pgm", L);
    put("right.pgm", R);
    std::vector<std::function<void()>> opts;
    opts.push_back([&] { option("left-image", "l", scratch + (bad == 4
        ? "/missing.pgm" : "/left.pgm")); });
    opts.push_back([&] { option("right-image", "r", scratch + (bad == 5
        ? "/missing.pgm" : "/right.pgm")); });
    if (bad != 6)
    {
        opts.push_back([&] { option("output-image", "o", out); });
    }
    U D = p.W;
    if (r.chance(60))
    {
        D = p.D;
        if (bad == 7)
        {
            D = p.W + 1 + r.below(3);
        }
        if (bad == 8)
        {
            D = r.below(2);
        }
        opts.push_back([&, D] { option("disparity-levels", "d",
                                       std::to_string(D)); });
    }
    if (p.W * p.H * D > 150)
    {
        return;
    }
    p.D = p.g.disparity_levels = D;
    if (r.chance(50))
    {
        U c = r.below(4);
        p.g.cleanness = double(c);
        opts.push_back([&, c] { option("cleanness", "c",
                                       std::to_string(c)); });
    }
    if (r.chance(50))
    {
        U s = r.below(6);
        p.g.smoothness = double(s);
        opts.push_back([&, s] { option("smoothness", "s",
                                       std::to_string(s)); });
    }
    if (r.chance(30))
    {
        static const std::vector<std::string> par{"cpu", "CPU", "omp",
                                                  "OpenMP", "OMP"};
        std::string v = r.pick(par);
        if (bad == 9)
        {
            v = "abacus";
            valid = false;
        }
        opts.push_back([&, v] { option("parallel", "p", v); });
    }
    valid = valid && bad != 4 && bad != 5 && bad != 6 && D >= 2 && D <= p.W
        && p.g.cleanness + p.g.smoothness > 0;
    while (!opts.empty())
    {
        size_t k = r.below(opts.size());
        opts[k]();
        opts.erase(opts.begin() + k);
    }
    std::string cmd;
    for (auto& a : args)
    {
        cmd += a + " ";
    }
    info = cmd + "\nleft.pgm:\n" + L + "\nright.pgm:\n" + R;
    digest(L + R + std::to_string(args.size()));
    std::vector<char*> argv;
    for (auto& a : args)
    {
        argv.push_back(&a[0]);
    }
    argv.push_back(nullptr);
    std::ostringstream err, cout_;
    auto* e0 = std::cerr.rdbuf(err.rdbuf());
    auto* o0 = std::cout.rdbuf(cout_.rdbuf());
    int rc = sp_main(int(args.size()), argv.data());
    std::cerr.rdbuf(e0);
    std::cout.rdbuf(o0);
    std::ifstream f(out);
    std::stringstream text;
    bool exists = bool(f);
    text << f.rdbuf();
    info += "\nexit " + std::to_string(rc) + " stderr: " + err.str()
        + "\noutput:\n" + text.str();
    if (!valid)
    {
        REQUIRE(!exists || text.str().empty(),
                "a disparity map was written for a wrong input");
        REQUIRE(!err.str().empty(), "no error message for a wrong input");
        return;
    }
    Tables t;
    p.g.reparametrization = FLOAT_ARRAY(p.W * p.H * 4 * p.D, 0.0);
    t = tabulate(p);
    auto all = all_differences(p, t);
    size_t lo = 0, hi = all.size() - 1;
    while (lo < hi)
    {
        size_t m = (lo + hi) / 2;
        any(greatest_closed(p, t, all[m], initial_set(p, t, all[m])))
            ? hi = m : lo = m + 1;
    }
    double th = all[lo];
    if (!exists || text.str().empty())
    {
        // the search for a labeling may fail (see DESIGN.md), nothing else
        REQUIRE(err.str().find("labeling") != std::string::npos,
                "no disparity map was written");
        ConstraintGraph g;
        DisparityGraph d2{p.g.left, p.g.right, p.D, p.g.cleanness,
                          p.g.smoothness};
        LowestPenalties l2(&d2);
        ConstraintGraph g2(&d2, &l2, th);
        cgn::solve_csp(&g2);
        REQUIRE(lf::find_labeling(&g2) == nullptr,
                "no disparity map was written although a labeling is found");
        return;
    }
    std::istringstream in(text.str());
    std::string magic;
    U w = 0, h = 0, m = 0;
    in >> magic >> w >> h >> m;
    REQUIRE(magic == "P2" && w == p.W && h == p.H && m == p.D,
            "header of the output");
    std::vector<U> v;
    U q;
    while (in >> q)
    {
        v.push_back(q);
    }
    REQUIRE(v.size() == p.W * p.H, "number of pixels in the output");
    for (U x = 0; x < p.W; ++x)
        for (U y = 0; y < p.H; ++y)
        {
            U d = v[y * p.W + x];
            REQUIRE(node_in(p, x, y, d), at(x, y, d) << " does not exist");
            REQUIRE(t.pen[t.node(p, x, y, d)] - t.low[x * p.H + y] <= th,
                    at(x, y, d) << " exceeds the minimal threshold " << th);
            for (int k = 0; k < 4; ++k)
            {
                U x2, y2;
                if (neighbor_of(p, x, y, k, x2, y2))
                {
                    U d2 = v[y2 * p.W + x2];
                    REQUIRE(node_in(p, x2, y2, d2), at(x2, y2, d2)
                            << " does not exist");
                    REQUIRE(edge_ok(p, t, th, x, y, d, k, d2),
                            "edge from " << at(x, y, d) << " to "
                            << at(x2, y2, d2) << " exceeds the minimal "
                               "threshold " << th);
                }
            }
        }
    ++interesting;
}
#endif

int main(int argc, char** argv)
{
    static const std::map<std::string, void (*)(Rng&)> checks{
        {"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05},
        {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10},
        {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15},
        {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C20", c20},
#ifdef WITH_MAIN
        {"C19", c19},
#endif
    };
    if (argc < 4 || !checks.count(argv[1]))
    {
        return 2;
    }
    if (const char* l = getenv("LITERALS"))
    {
        std::istringstream in(l);
        U v;
        while (in >> v)
        {
            literals.push_back(v);
        }
    }
#ifdef WITH_MAIN
    {
        char t[] = "/tmp/sp_cli_XXXXXX";
        scratch = mkdtemp(t);
    }
#endif
    __sanitizer_set_death_callback(on_death);
    signal(SIGALRM, on_alarm);
    auto check = checks.at(argv[1]);
    bool single = std::string(argv[2]) == "--case";
    uint64_t base = std::stoull(argv[single ? 3 : 2]);
    long ms = single ? 0 : std::stol(argv[3]);
    auto start = std::chrono::steady_clock::now();
    int rc = 0;
    // the number of the current case outlives any kind of crash
    volatile uint64_t* slot = &case_number;
    if (!single && argc > 4)
    {
        int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && ftruncate(fd, 4096) == 0)
        {
            void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED,
                           fd, 0);
            if (m != MAP_FAILED)
            {
                slot = static_cast<uint64_t*>(m);
            }
        }
    }
    for (uint64_t n = 0;; ++n)
    {
        if (single ? n > 0
                   : std::chrono::duration_cast<std::chrono::milliseconds>(
                         std::chrono::steady_clock::now() - start).count()
                         > ms)
        {
            break;
        }
        case_number = single ? base : (base * 1000003 + n) & 0xffffffffffffull;
        *slot = case_number;
        Rng r{case_number * 0x2545F4914F6CDD1Dull + 1};
        info.clear();
        ++executed;
        alarm(20);
        try
        {
            check(r);
        }
        catch (Failure& f)
        {
            report(f.what.c_str());
            rc = 1;
        }
        catch (std::bad_alloc&)
        {
            // memory exhaustion is outside the properties
        }
        catch (std::exception& e)
        {
            report((std::string("unexpected exception: ") + e.what()).c_str());
            rc = 1;
        }
        alarm(0);
        if (rc)
        {
            break;
        }
    }
#ifdef WITH_MAIN
    for (const char* f : {"/left.pgm", "/right.pgm", "/out.pgm"})
    {
        unlink((scratch + f).c_str());
    }
    rmdir(scratch.c_str());
#endif
    printf("DONE executed=%lu interesting=%lu distinct=%zu\n", executed,
           interesting, digests.size());
    return rc;
}
