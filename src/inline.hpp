// Runs without a tree of their own.
#pragma once
#include "conf.hpp"
#include "fscommon.hpp"

inline S how(const Result &R) { return "\nstatus " + std::to_string(R.status) + (R.signaled ? " (signal)" : "") + (R.timed_out ? " (did not end)" : "") + "\nstdout: " + qs(R.out.substr(0, 1500)) + "\nstderr: " + qs(R.err.substr(0, 1500)); }
inline Run plain_run(Worker &w, const V<S> &argv, const S &in = "", const V<std::pair<S, S>> &env = {})
{
    Run r; r.argv = argv; r.env = env; r.stdin_data = in;
    S root = w.root;
    r.hooks = [root](HookArea &h) { snprintf(h.root, sizeof h.root, "%s", root.c_str()); h.order = ORDER_SORTED; };
    return r;
}
inline V<S> lines_of(const S &s) { V<S> v; for (size_t p = 0; p < s.size();) { size_t z = s.find('\n', p); if (z == S::npos) z = s.size(); v.push_back(s.substr(p, z - p)); p = z + 1; } return v; }
inline bool starts(const S &s, const S &p) { return s.compare(0, p.size(), p) == 0; }
