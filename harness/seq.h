// Helpers of the drivers of sequential components: events built piecewise,
// objects that report their construction and destruction.
#ifndef SEQ_H
#define SEQ_H
#include <vsched.h>
#include <cstdint>
#include <exception>
#include <new>
#include <string>
#include <utility>
#include <vector>
namespace seq {
using L = std::vector<long>;
// E("op") << 1 << L{..} << "text": emitted at the end of the statement.
class E {
public:
    explicit E(char const * name) { m_s += "[\""; m_s += name; m_s += '"'; }
    E(E const &) = delete;
    ~E() { m_s += ']'; vs::evRaw(m_s); }
    E & operator<<(long v) { m_s += ','; m_s += std::to_string(v); return *this; }
    E & operator<<(int v) { return *this << long(v); }
    E & operator<<(unsigned v) { return *this << long(v); }
    E & operator<<(unsigned long v) { return *this << long(v); }
    E & operator<<(bool v) { return *this << long(v); }
    E & operator<<(char const * v) { m_s += ",\""; m_s += v; m_s += '"'; return *this; }
    E & operator<<(L const & v) { m_s += ','; list(v); return *this; }
    E & operator<<(std::vector<L> const & v) {
        m_s += ",[";
        bool first = true;
        for (auto const & x : v) { if (!first) m_s += ','; first = false; list(x); }
        m_s += ']';
        return *this;
    }
private:
    void list(L const & v) {
        m_s += '[';
        for (std::size_t i = 0; i < v.size(); ++i) { if (i) m_s += ','; m_s += std::to_string(v[i]); }
        m_s += ']';
    }
    std::string m_s;
};
template <typename B> inline L bytes(B const * p, std::size_t n) {
    L r; r.reserve(n);
    for (std::size_t i = 0; i < n; ++i) r.push_back(static_cast<long>(static_cast<unsigned char>(p[i])));
    return r;
}
inline bool coin() { return vs::rnd(2) != 0; }
// Runs op with its n-th allocation failing (n = 0: none fails); true when it
// ended with bad_alloc.
template <typename F> bool starved(long n, F && op) {
    vs::failAlloc(n);
    try { op(); vs::failAlloc(0); return false; }
    catch (std::bad_alloc const &) { vs::failAlloc(0); return true; }
}
} // namespace seq
#endif
